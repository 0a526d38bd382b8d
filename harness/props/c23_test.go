package props

import (
	"encoding/base64"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"codeberg.org/emersion/soju/database"
	"codeberg.org/emersion/soju/xirc"
	"gopkg.in/irc.v4"

	"sojuverif/kit"
)

// C23: generated protocol messages lose nothing and fit in a line, and the
// parsing helpers invert the encoders.

const c23Max = 512

// c23Wire checks that a message survives the wire and returns what arrives.
func c23Wire(c *kit.Ctx, m *irc.Message) *irc.Message {
	line := m.String()
	c.Check(!strings.ContainsAny(line, "\r\n\x00"), "the line %q contains forbidden characters", line)
	p, err := irc.ParseMessage(line)
	if err != nil {
		c.Violatef("the line %q cannot be parsed: %v", line, err)
		return m
	}
	c.Check(p.Command == m.Command && kit.Eq(p.Params, m.Params), "the line %q is read as %q %q, meant %q %q", line, p.Command, p.Params, m.Command, m.Params)
	return p
}

// c23Lengths yields lists of item lengths whose packing exercises every
// alignment with the line limit.
func c23Lengths(r *kit.Run, f func(key string, lens []int)) {
	n := 0
	emit := func(key string, lens []int) { n++; f(key, lens) }
	maxN := r.Pick(80, 200)
	for L := 1; L <= r.Pick(40, 80); L++ {
		var all []int
		for k := 0; k < maxN; k++ {
			all = append(all, L)
		}
		emit(fmt.Sprintf("u%d", L), all)
	}
	// one item of another length at each position near the limit
	for L := 7; L <= r.Pick(9, 20); L++ {
		per := 512 / (L + 1)
		for pos := per - 6; pos <= per+2; pos++ {
			for K := 1; K <= r.Pick(60, 200); K++ {
				lens := make([]int, per+6)
				for i := range lens {
					lens[i] = L
				}
				lens[pos] = K
				emit(fmt.Sprintf("m%d/%d/%d", L, pos, K), lens)
			}
		}
	}
	for _, big := range []int{400, 450, 480, 490, 500, 505, 510, 511, 512, 513, 600, 1200} {
		emit(fmt.Sprintf("big%d", big), []int{big})
		emit(fmt.Sprintf("sbig%d", big), []int{3, big})
		emit(fmt.Sprintf("bigs%d", big), []int{big, 3})
		emit(fmt.Sprintf("sbigs%d", big), []int{3, big, 3, big, 4})
	}
	for L := 440; L <= 512; L++ {
		emit(fmt.Sprintf("edge%d", L), []int{L - 10, 9, 3})
		emit(fmt.Sprintf("edgeb%d", L), []int{9, L - 10, 3})
	}
	emit("empty", nil)
	r.Count(n, n)
}

func c23Item(i, n int) string {
	s := fmt.Sprintf("%d", i)
	for len(s) < n {
		s += "x"
	}
	return string(rune('a'+i%26)) + s[:n-1]
}

// c23Packed checks line lengths: a line may only be too long if it carries a
// single item.
func c23Packed(c *kit.Ctx, m *irc.Message, items int) {
	n := len(m.String()) + 2
	c.Check(n <= c23Max || items <= 1, "a line of %d bytes carries %d items: %.80q...", n, items, m.String())
}

func c23Functions(r *kit.Run) {
	prefixes := func(n int) []int {
		if n < 6 || n > 60 {
			return []int{n}
		}
		var l []int
		for i := 0; i <= n; i++ {
			l = append(l, i)
		}
		return l
	}
	c23Lengths(r, func(key string, lens []int) {
		r.Plain("pack:"+key, func(c *kit.Ctx) {
			for _, n := range prefixes(len(lens)) {
				var items []string
				for i, l := range lens[:n] {
					items = append(items, c23Item(i, l))
				}
				// member lists
				for _, ch := range []string{"#c", "#" + strings.Repeat("n", 49)} {
					for _, st := range []xirc.ChannelStatus{xirc.ChannelPublic, xirc.ChannelSecret} {
						var got []string
						msgs := xirc.GenerateNamesReply(ch, st, append([]string(nil), items...))
						for i, m := range msgs {
							m = c23Wire(c, m)
							if i == len(msgs)-1 {
								c.Check(m.Command == "366" && len(m.Params) == 3 && m.Params[1] == ch, "last message %v", m)
								continue
							}
							if !c.Check(m.Command == "353" && len(m.Params) == 4 && m.Params[1] == string(st) && m.Params[2] == ch, "bad member list line %v", m) {
								continue
							}
							f := strings.Split(m.Params[3], " ")
							c23Packed(c, m, len(f))
							got = append(got, f...)
						}
						c.Check(kit.Eq(got, items), "member lists carry %d of %d items or in another order", len(got), len(items))
					}
				}
				// monitor
				for _, sub := range []string{"+", "-"} {
					var got []string
					for _, m := range xirc.GenerateMonitor(sub, append([]string(nil), items...)) {
						m = c23Wire(c, m)
						if !c.Check(m.Command == "MONITOR" && len(m.Params) == 2 && m.Params[0] == sub, "bad line %v", m) {
							continue
						}
						f := strings.Split(m.Params[1], ",")
						c23Packed(c, m, len(f))
						got = append(got, f...)
					}
					c.Check(kit.Eq(got, items), "MONITOR lines carry %d of %d items or in another order", len(got), len(items))
				}
				// tokens
				var got []string
				for _, m := range xirc.GenerateIsupport(append([]string(nil), items...)) {
					m = c23Wire(c, m)
					if !c.Check(m.Command == "005" && len(m.Params) >= 3 && len(m.Params) <= 15, "bad line %v", m) {
						continue
					}
					f := m.Params[1 : len(m.Params)-1]
					c23Packed(c, m, len(f))
					got = append(got, f...)
				}
				c.Check(kit.Eq(got, items), "RPL_ISUPPORT lines carry %d of %d tokens or in another order", len(got), len(items))
				// joins, with keys on every k-th channel
				for _, every := range []int{0, 1, 2, 3} {
					var chans, keys, want, have []string
					for i, it := range items {
						k := ""
						if every > 0 && i%every == 0 {
							k = fmt.Sprintf("key%d", i)
						}
						chans, keys = append(chans, "#"+it), append(keys, k)
						l := "JOIN #" + it
						if k != "" {
							l += " " + k
						}
						want = append(want, l)
					}
					for _, m := range xirc.GenerateJoin(append([]string(nil), chans...), append([]string(nil), keys...)) {
						m = c23Wire(c, m)
						if !c.Check(m.Command == "JOIN" && (len(m.Params) == 1 || len(m.Params) == 2), "bad line %v", m) {
							continue
						}
						c23Packed(c, m, strings.Count(m.Params[0], ",")+1)
						if len(m.Params) == 2 {
							c.Check(strings.Count(m.Params[1], ",") <= strings.Count(m.Params[0], ","), "more keys than channels: %v", m)
						}
						have = append(have, expandJoins([]*irc.Message{m})...)
					}
					c.Check(kit.EqSet(have, want), "JOIN lines ask for %d channels, expected %d: %.300s / %.300s", len(have), len(want), kit.Q(kit.Sorted(have)), kit.Q(kit.Sorted(want)))
				}
				if c.Bad() {
					return
				}
			}
		})
	})
	// keys on every subset of a few channels
	r.Plain("joinkeys", func(c *kit.Ctx) {
		for n := 0; n <= 6; n++ {
			for mask := 0; mask < 1<<n; mask++ {
				var chans, keys, want, have []string
				for i := 0; i < n; i++ {
					ch, k := "#"+string(rune('f'-i)), ""
					if mask>>i&1 == 1 {
						k = "k" + string(rune('a'+(i*5)%7))
					}
					chans, keys = append(chans, ch), append(keys, k)
					want = append(want, strings.TrimSpace("JOIN "+ch+" "+k))
				}
				for _, m := range xirc.GenerateJoin(chans, keys) {
					have = append(have, expandJoins([]*irc.Message{c23Wire(c, m)})...)
				}
				c.Check(kit.EqSet(have, want), "JOIN lines %s, expected %s", kit.Q(have), kit.Q(want))
			}
		}
	})
	// SASL chunks, every length
	for base := 0; base < r.Pick(1300, 5000); base += 50 {
		r.Plain(fmt.Sprintf("sasl:%d", base), func(c *kit.Ctx) {
			for n := base; n < base+50; n++ {
				resp := make([]byte, n)
				for i := range resp {
					resp[i] = byte(i*7 + n)
				}
				enc := ""
				msgs := xirc.GenerateSASL(resp)
				for i, m := range msgs {
					m = c23Wire(c, m)
					if !c.Check(m.Command == "AUTHENTICATE" && len(m.Params) == 1 && len(m.Params[0]) <= 400, "bad chunk %v", m) {
						return
					}
					if i < len(msgs)-1 {
						c.Check(len(m.Params[0]) == 400, "chunk %d of %d is short", i, len(msgs))
					} else {
						c.Check(len(m.Params[0]) < 400, "the last chunk is full: the exchange does not end")
					}
					if m.Params[0] != "+" {
						enc += m.Params[0]
					}
				}
				got, err := base64.StdEncoding.DecodeString(enc)
				c.Check(err == nil && string(got) == string(resp), "a payload of %d bytes is sent as another", n)
			}
		})
	}
	// RPL_ISUPPORT escapes, every short token value
	r.Plain("isupport-escapes", func(c *kit.Ctx) {
		alpha := []string{" ", "\\", "x", "2", "0", "5", "C", "=", "é"}
		var rec func(s string, n int)
		rec = func(s string, n int) {
			msgs := xirc.GenerateIsupport([]string{"NETWORK=" + s})
			if c.Check(len(msgs) == 1, "%d messages", len(msgs)) {
				m := c23Wire(c, msgs[0])
				if c.Check(len(m.Params) == 3, "token value %q: params %q", s, m.Params) {
					c.Check(c23Isupport(m.Params[1]) == "NETWORK="+s, "token value %q is sent as %q", s, m.Params[1])
				}
			}
			if n == 0 || c.Bad() {
				return
			}
			for _, a := range alpha {
				rec(s+a, n-1)
			}
		}
		rec("", r.Pick(5, 6))
	})
	// WHOX: every set of fields
	r.Plain("whox", func(c *kit.Ctx) {
		all := "tcuihsnfdlaor"
		infos := []xirc.WHOXInfo{
			{"42", "#chan", "user", "host.example", "irc.example", "nick", "H@", "acct", "real name"},
			{"7", "", "~u", "::1", "s", "n", "G*", "", ""},
			{"0", "*", "u", "127.0.0.1", "s", "n", "H", "0", "r"},
		}
		for mask := 1; mask < 1<<len(all); mask++ {
			fields := ""
			for i := range all {
				if mask>>i&1 == 1 {
					fields += string(all[len(all)-1-i])
				}
			}
			for _, in := range infos {
				m := xirc.GenerateWHOXReply(fields, &in)
				m = c23Wire(c, m)
				if !c.Check(m.Command == "354" && len(m.Params) == 1+len(fields), "WHOX %q: %v", fields, m) {
					return
				}
				out, err := xirc.ParseWHOXReply(m, fields)
				if !c.Check(err == nil, "WHOX %q: %v", fields, err) {
					return
				}
				want := xirc.WHOXInfo{}
				for _, f := range fields {
					switch f {
					case 't':
						want.Token = in.Token
					case 'c':
						want.Channel = in.Channel
						if want.Channel == "" {
							want.Channel = "*"
						}
					case 'u':
						want.Username = in.Username
					case 'h':
						want.Hostname = in.Hostname
						if strings.HasPrefix(want.Hostname, ":") {
							want.Hostname = "0" + want.Hostname
						}
					case 's':
						want.Server = in.Server
					case 'n':
						want.Nickname = in.Nickname
					case 'f':
						want.Flags = in.Flags
					case 'a':
						want.Account = in.Account
						if want.Account == "" {
							want.Account = "0"
						}
					case 'r':
						want.Realname = in.Realname
					}
				}
				c.Check(*out == want, "WHOX %q: %+v is read back as %+v", fields, want, *out)
				// missing values are refused
				short := m.Copy()
				short.Params = short.Params[:len(short.Params)-1]
				_, err = xirc.ParseWHOXReply(short, fields)
				c.Check(err != nil, "WHOX %q: a reply with a missing value is accepted", fields)
			}
			f, tok := xirc.ParseWHOXOptions("%" + strings.ToUpper(fields) + ",123")
			wtok := ""
			if strings.Contains(fields, "t") {
				wtok = "123"
			}
			c.Check(f == fields && tok == wtok, "options %%%s,123 read as %q, %q", fields, f, tok)
			if c.Bad() {
				return
			}
		}
		r.Count(1<<len(all), 3<<len(all))
	})
	// CTCP
	r.Plain("ctcp", func(c *kit.Ctx) {
		alpha := []string{"\x01", " ", "A", "b", "é", "\t"}
		var texts []string
		var rec func(s string, n int)
		rec = func(s string, n int) {
			texts = append(texts, s)
			if n > 0 {
				for _, a := range alpha {
					rec(s+a, n-1)
				}
			}
		}
		rec("", r.Pick(5, 7))
		for _, cmd := range []string{"PRIVMSG", "NOTICE", "TAGMSG", "TOPIC"} {
			for _, s := range texts {
				_, _, ok := xirc.ParseCTCPMessage(&irc.Message{Command: cmd, Params: []string{"#c", s}})
				want := strings.HasPrefix(s, "\x01") && (cmd == "PRIVMSG" || cmd == "NOTICE")
				c.Check(ok == want, "%s %q is CTCP: %v", cmd, s, ok)
				if strings.Contains(s, "\x01") || s == "" {
					continue
				}
				for _, end := range []string{"\x01", ""} {
					name, params, ok := xirc.ParseCTCPMessage(&irc.Message{Command: "PRIVMSG", Params: []string{"#c", "\x01ping" + end}})
					c.Check(ok && name == "PING" && params == "", "CTCP without parameters read as %q %q", name, params)
					name, params, ok = xirc.ParseCTCPMessage(&irc.Message{Command: "PRIVMSG", Params: []string{"#c", "\x01Action " + s + end}})
					c.Check(ok && name == "ACTION" && params == s, "CTCP ACTION %q read as %q %q", s, name, params)
				}
			}
			for _, params := range [][]string{nil, {"#c"}} {
				_, _, ok := xirc.ParseCTCPMessage(&irc.Message{Command: cmd, Params: params})
				c.Check(!ok, "%s with %d parameters is CTCP", cmd, len(params))
			}
		}
		r.Count(len(texts), 4*len(texts))
	})
	// channel status
	r.Plain("status", func(c *kit.Ctx) {
		var l []string
		l = append(l, "")
		for i := 0; i < 256; i++ {
			l = append(l, string([]byte{byte(i)}))
			for j := 0; j < 256; j++ {
				l = append(l, string([]byte{byte(i), byte(j)}))
			}
		}
		for _, s := range l {
			st, err := xirc.ParseChannelStatus(s)
			valid := s == "=" || s == "@" || s == "*"
			c.Check((err == nil) == valid, "status %q: error %v", s, err)
			if valid {
				c.Check(string(st) == s, "status %q read as %q", s, st)
			}
		}
		r.Count(len(l), len(l))
	})
	// membership sets: every sequence of changes
	av := []xirc.Membership{{'q', '~'}, {'a', '&'}, {'o', '@'}, {'v', '+'}}
	var ops []string
	for _, m := range av {
		ops = append(ops, "+"+string(m.Mode), "-"+string(m.Mode))
	}
	r.Tree("membership", r.Pick(5, 7), func([]string) []string { return ops }, func(key string, seq []string) {
		r.Plain(key, func(c *kit.Ctx) {
			var ms xirc.MembershipSet
			have := map[byte]bool{}
			for _, op := range seq {
				c.Step(op)
				for _, m := range av {
					if m.Mode != op[1] {
						continue
					}
					if op[0] == '+' {
						ms.Add(av, m)
						have[m.Mode] = true
					} else {
						ms.Remove(m)
						delete(have, m.Mode)
					}
				}
				var got, want string
				for _, m := range ms {
					got += string(m.Prefix)
				}
				for _, m := range av {
					if have[m.Mode] {
						want += string(m.Prefix)
					}
				}
				c.Check(got == want, "the set is %q, expected %q", got, want)
			}
		})
	})
}

// c23Isupport decodes a token as a client does.
func c23Isupport(tok string) string {
	var sb strings.Builder
	for i := 0; i < len(tok); i++ {
		if tok[i] == '\\' && i+3 < len(tok) && tok[i+1] == 'x' {
			var b int
			if _, err := fmt.Sscanf(tok[i+2:i+4], "%02x", &b); err == nil {
				sb.WriteByte(byte(b))
				i += 3
				continue
			}
		}
		sb.WriteByte(tok[i])
	}
	return sb.String()
}

func TestC23(t *testing.T) {
	r := kit.Start(t, "C23")
	c23Functions(r)
	slack := len(":bouncer ") + len("alice") // added to each line for the client

	// member lists as clients get them
	nw := 0
	for _, L := range []int{3, 9, 16, 30, 63} {
		for n := 0; n <= r.Pick(60, 150); n += r.Pick(4, 1) {
			for _, multi := range []bool{false, true} {
				nw++
				r.World(fmt.Sprintf("names:%d/%d/%v", L, n, multi), func(c *kit.Ctx, w *kit.World) {
					u := w.AddUser("alice", nil)
					net, s := w.AddNetwork(u, "net", nil)
					w.AddChannel(net, "#chan", nil)
					s.Caps = []string{"multi-prefix"}
					s.HoldNames = true
					w.Start()
					var all []string
					for i := 0; i < n; i++ {
						p := []string{"", "@", "+", "@+"}[i%4]
						all = append(all, p+c23Item(i, L))
					}
					all = append(all, "alice")
					for i := 0; i < len(all); i += 5 {
						s.Send(":net.test 353 alice = #chan :" + strings.Join(all[i:min(i+5, len(all))], " "))
					}
					s.Do(":net.test 366 alice #chan :End")
					var caps, want []string
					if multi {
						caps = []string{"multi-prefix"}
					}
					for _, a := range all {
						if !multi && strings.HasPrefix(a, "@+") {
							a = "@" + a[2:]
						}
						want = append(want, a)
					}
					cl := w.Connect("c", kit.ConnOpts{User: "alice", Network: "net", Caps: caps})
					var got []string
					for _, m := range kit.Select(cl.Take(), "353") {
						f := strings.Split(m.Params[3], " ")
						c.Check(len(m.String())+2 <= c23Max+slack || len(f) == 1, "a member list line of %d bytes", len(m.String())+2)
						got = append(got, f...)
					}
					c.Check(kit.EqSet(got, want), "the client is told %d members, expected %d: %.200s", len(got), len(want), kit.Q(got))
				})
			}
		}
	}

	// RPL_ISUPPORT tokens passed on to clients, at login and when they change
	values := []string{"Simple", "With Space", "Back\\slash", "a=b", "two  spaces ", "\\x20", "\\", "=", "é√", strings.Repeat("N", 300)}
	names := []string{"NETWORK", "EXTBAN", "ELIST", "MAXLIST", "TARGMAX", "ACCOUNTEXTBAN", "CHANLIMIT", "KICKLEN", "TOPICLEN", "NICKLEN", "MODES", "USERLEN", "HOSTLEN", "AWAYLEN", "CHANNELLEN", "NAMELEN"}
	enc := func(s string) string {
		return strings.NewReplacer(" ", "\\x20", "\\", "\\x5C", "=", "\\x3D").Replace(s)
	}
	tokens := func(msgs []*irc.Message) map[string]string {
		out := map[string]string{}
		for _, m := range kit.Select(msgs, "005") {
			for _, tok := range m.Params[1 : len(m.Params)-1] {
				k, v, _ := strings.Cut(tok, "=")
				out[k] = c23Isupport(v)
			}
		}
		return out
	}
	for _, v := range values {
		for cnt := 1; cnt <= len(names); cnt++ {
			nw++
			r.World(fmt.Sprintf("isupport:%.20q/%d", v, cnt), func(c *kit.Ctx, w *kit.World) {
				u := w.AddUser("alice", nil)
				_, s := w.AddNetwork(u, "net", nil)
				base := s.ISupport
				for _, nm := range names[:cnt] {
					s.ISupport = append(s.ISupport[:len(s.ISupport):len(s.ISupport)], nm+"="+enc(v+nm))
				}
				s.Hook = func(uc *kit.UpConn, m *irc.Message) bool { return false }
				long := s.ISupport
				// lines of at most 5 tokens, as a server would
				s.ISupport = base
				w.Start()
				send := func(val string) {
					for i := len(base); i < len(long); i += 2 {
						var l []string
						for _, nm := range names[i-len(base) : min(i-len(base)+2, cnt)] {
							l = append(l, nm+"="+enc(val+nm))
						}
						s.Send(":net.test 005 alice " + strings.Join(l, " ") + " :are supported")
					}
					w.Settle()
				}
				cl0 := w.Connect("early", kit.ConnOpts{User: "alice", Network: "net"})
				cl0.Take()
				send(v)
				verify := func(cl *kit.Client, val string) {
					msgs := cl.Take()
					got := tokens(msgs)
					for _, nm := range names[:cnt] {
						c.Check(got[nm] == val+nm, "client %s: %s is %q, expected %q", cl.Name, nm, got[nm], val+nm)
					}
					for _, m := range kit.Select(msgs, "005") {
						c.Check(len(m.String())+2 <= c23Max+slack || len(m.Params) <= 3, "a token line of %d bytes", len(m.String())+2)
						c.Check(len(m.Params) <= 15, "a token line with %d parameters", len(m.Params))
					}
				}
				verify(cl0, v)
				cl := w.Connect("late", kit.ConnOpts{User: "alice", Network: "net"})
				verify(cl, v)
				send("new " + v)
				verify(cl, "new "+v)
				verify(cl0, "new "+v)
			})
		}
	}

	// capability lists
	for _, host := range []string{"bouncer", "a-rather-long-bouncer-name.example.org"} {
		for _, bound := range []bool{false, true} {
			for _, store := range []string{"memory", "db"} {
				nw++
				r.World(fmt.Sprintf("caps:%s/%v/%s", host, bound, store), func(c *kit.Ctx, w *kit.World) {
					w.Cfg.Hostname = host
					w.Cfg.MsgStoreDriver = store
					u := w.AddUser("alice", nil)
					_, s := w.AddNetwork(u, "net", nil)
					s.Caps = []string{"message-tags", "server-time", "sasl=PLAIN", "draft/account-registration=custom-account-name,email-required", "account-tag", "chghost", "multi-prefix", "extended-join", "away-notify", "account-notify", "invite-notify", "setname"}
					w.Start()
					collect := func(cl *kit.Client, sub string) (caps []string) {
						msgs := kit.Select(cl.Take(), "CAP")
						for i, m := range msgs {
							if m.Params[1] != sub {
								continue
							}
							c.Check(len(m.String())+2 <= c23Max, "a CAP %s line of %d bytes", sub, len(m.String())+2)
							if i < len(msgs)-1 {
								c.Check(len(m.Params) == 4 && m.Params[2] == "*", "CAP %s: line %d of %d is not marked as continued", sub, i, len(msgs))
							} else {
								c.Check(len(m.Params) == 3, "CAP %s: the last line is marked as continued", sub)
							}
							caps = append(caps, strings.Fields(m.Params[len(m.Params)-1])...)
						}
						for i, n := range kit.Sorted(caps) {
							c.Check(i == 0 || n != kit.Sorted(caps)[i-1], "capability %s listed twice", n)
						}
						return
					}
					pre := w.Dial("pre")
					pre.Send("CAP LS 302")
					w.Settle()
					before := collect(pre, "LS")
					netw := ""
					if bound {
						netw = "net"
					}
					cl := w.Connect("c", kit.ConnOpts{User: "alice", Network: netw, Caps: []string{"batch"}})
					cl.Take()
					cl.Send("CAP LS 302")
					w.Settle()
					l := collect(cl, "LS")
					c.Check(len(l) > 10 && len(before) > 10, "only %d capabilities listed", len(l))
					// request everything, one by one, then list them
					var want []string
					for _, k := range l {
						name, _, _ := strings.Cut(k, "=")
						want = append(want, name)
						cl.Send("CAP REQ :" + name)
					}
					w.Settle()
					acks := 0
					for _, m := range kit.Select(cl.Take(), "CAP") {
						if m.Params[1] == "ACK" {
							acks++
						}
					}
					cl.Send("CAP LIST")
					w.Settle()
					got := collect(cl, "LIST")
					sort.Strings(want)
					if acks == len(want) {
						c.Check(kit.EqSet(got, want), "CAP LIST says %s, expected %s", kit.Q(kit.Sorted(got)), kit.Q(want))
					}
				})
			}
		}
	}

	// monitored nicknames towards the server
	for _, L := range []int{3, 9, 30, 100} {
		for _, n := range []int{1, 2, 5, 16, 40, 48, 49, 50, 51, 52, 53, 99, 120} {
			nw++
			r.World(fmt.Sprintf("monitor:%d/%d", L, n), func(c *kit.Ctx, w *kit.World) {
				u := w.AddUser("alice", nil)
				_, s := w.AddNetwork(u, "net", nil)
				s.ISupport = append(s.ISupport, "MONITOR=1000")
				s.Hook = func(uc *kit.UpConn, m *irc.Message) bool {
					if m.Command == "MONITOR" && m.Params[0] == "+" {
						for _, n := range strings.Split(m.Params[1], ",") {
							uc.Send(":net.test 731 alice :" + n)
						}
					}
					return false
				}
				w.Start()
				other := w.Connect("other", kit.ConnOpts{User: "alice", Network: "net"})
				other.Do("MONITOR + keep")
				cl := w.Connect("c", kit.ConnOpts{User: "alice", Network: "net"})
				s.Take()
				var want []string
				for i := 0; i < n; i++ {
					want = append(want, fmt.Sprintf("m%d%s", i, strings.Repeat("x", max(0, L-1-len(fmt.Sprint(i))))))
				}
				cl.Send("MONITOR + " + strings.Join(want, ","))
				w.Settle()
				w.Sleep(time.Minute)
				check := func(sub string) {
					var got []string
					for _, m := range kit.Select(s.Take(), "MONITOR") {
						if m.Params[0] != sub {
							continue
						}
						f := strings.Split(m.Params[1], ",")
						c.Check(len(m.String())+2 <= c23Max || len(f) == 1, "a MONITOR line of %d bytes", len(m.String())+2)
						got = append(got, f...)
					}
					if L*n < 4000 {
						c.Check(kit.EqSet(got, want), "MONITOR %s names %d of %d", sub, len(got), len(want))
					}
				}
				check("+")
				cl.Take()
				cl.Send("MONITOR L")
				w.Settle()
				var listed []string
				for _, m := range kit.Select(cl.Take(), "732") {
					f := strings.Split(m.Params[1], ",")
					c.Check(len(m.String())+2 <= c23Max+slack || len(f) == 1, "a monitor list line of %d bytes", len(m.String())+2)
					listed = append(listed, f...)
				}
				if L*n < 4000 {
					c.Check(kit.EqSet(listed, want), "the monitor list has %d of %d names", len(listed), len(want))
				}
				cl.Send("MONITOR C")
				w.Settle()
				w.Sleep(time.Minute)
				check("-")
			})
		}
	}

	// WHOX replies made by the bouncer
	fields := "tcuihsnfdlaor"
	for hi := 0; hi < 16; hi++ {
		nw++
		r.World(fmt.Sprintf("who:%d", hi), func(c *kit.Ctx, w *kit.World) {
			w.AddUser("alice", func(u *database.User) { u.Realname = "Real Name" })
			w.Start()
			cl := w.Connect("c", kit.ConnOpts{User: "alice"})
			cl.Take()
			for lo := 0; lo < 1<<(len(fields)-4); lo++ {
				mask := hi<<(len(fields)-4) | lo
				f := ""
				for i := range fields {
					if mask>>i&1 == 1 {
						f += string(fields[i])
					}
				}
				if f == "" {
					continue
				}
				for _, tok := range []string{"", ",77"} {
					for _, who := range []string{"alice", "BouncerServ"} {
						l := kit.Select(cl.Do("WHO "+who+" %"+f+tok), "354")
						if !c.Check(len(l) == 1 && len(l[0].Params) == 1+len(f), "WHO %%%s%s: reply %v", f, tok, l) {
							return
						}
						info, err := xirc.ParseWHOXReply(l[0], f)
						c.Check(err == nil && (!strings.Contains(f, "n") || info.Nickname == who) && (!strings.Contains(f, "u") || info.Username != "") && (!strings.Contains(f, "t") || tok == "" || info.Token == "77"), "WHO %%%s%s: reply %v", f, tok, l[0])
					}
				}
			}
		})
	}
	r.Count(nw, nw)
	r.Bound("worlds: %d combinations of list sizes and item lengths seen by clients and servers", nw)
}
