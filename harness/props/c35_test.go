package props

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"net"
	"net/http"
	"sort"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"codeberg.org/emersion/soju/config"
	"codeberg.org/emersion/soju/database"
	"gopkg.in/irc.v4"

	"sojuverif/kit"
)

// C35: WebSocket connections carry the same protocol as plain ones.

type c35RW struct {
	h    http.Header
	code int
	conn net.Conn
	hij  bool
}

func (w *c35RW) Header() http.Header { return w.h }
func (w *c35RW) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}
func (w *c35RW) Write(b []byte) (int, error) {
	w.WriteHeader(200)
	return len(b), nil
}
func (w *c35RW) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	w.hij = true
	return w.conn, bufio.NewReadWriter(bufio.NewReader(w.conn), bufio.NewWriter(w.conn)), nil
}

// c35WS is a WebSocket client.
type c35WS struct {
	c       *kit.Ctx
	w       *kit.World
	mc      *kit.MemConn
	rw      *c35RW
	done    bool // the handler returned
	buf     []byte
	closeRx int    // status of the close frame received, 0 if none
	pongs   string // payloads of the pongs received
	noClose bool   // does not answer close frames
	noPong  bool   // does not answer the PING command
	msgs    []*irc.Message
}

func c35Headers() http.Header {
	return http.Header{"Upgrade": {"websocket"}, "Connection": {"Upgrade"}, "Sec-Websocket-Version": {"13"}, "Sec-Websocket-Key": {"dGhlIHNhbXBsZSBub25jZQ=="}}
}

func c35Dial(c *kit.Ctx, w *kit.World, remote string, h http.Header) *c35WS {
	mc := kit.NewMemConn(&net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 80}, &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 50000})
	ws := &c35WS{c: c, w: w, mc: mc, rw: &c35RW{h: http.Header{}, conn: mc}}
	req, err := http.NewRequest("GET", "https://bouncer.test/socket", nil)
	if err != nil {
		panic(err)
	}
	req.Header = h
	req.RemoteAddr = remote
	go func() {
		w.Srv.ServeHTTP(ws.rw, req)
		ws.done = true
	}()
	w.Settle()
	return ws
}

// frame encodes a masked client frame.
func c35Frame(op byte, fin bool, payload string) string {
	var b bytes.Buffer
	h := op
	if fin {
		h |= 0x80
	}
	b.WriteByte(h)
	switch n := len(payload); {
	case n < 126:
		b.WriteByte(0x80 | byte(n))
	case n < 65536:
		b.WriteByte(0x80 | 126)
		binary.Write(&b, binary.BigEndian, uint16(n))
	default:
		b.WriteByte(0x80 | 127)
		binary.Write(&b, binary.BigEndian, uint64(n))
	}
	key := []byte{0x12, 0x9c, 0x00, 0xff}
	b.Write(key)
	for i := 0; i < len(payload); i++ {
		b.WriteByte(payload[i] ^ key[i%4])
	}
	return b.String()
}

func (ws *c35WS) Send(line string) { ws.mc.Feed(c35Frame(1, true, line)) }

// fetch reads the frames received; it reports whether it answered some.
func (ws *c35WS) fetch() bool {
	ws.buf = append(ws.buf, ws.mc.Output()...)
	answered := false
	for len(ws.buf) >= 2 {
		b := ws.buf
		op, fin, n, off := b[0]&0xf, b[0]&0x80 != 0, int(b[1]&0x7f), 2
		if b[0]&0x70 != 0 || b[1]&0x80 != 0 {
			ws.c.Violatef("a frame with the header %x %x", b[0], b[1])
			return false
		}
		if n == 126 {
			if len(b) < 4 {
				break
			}
			n, off = int(binary.BigEndian.Uint16(b[2:])), 4
		} else if n == 127 {
			if len(b) < 10 {
				break
			}
			n, off = int(binary.BigEndian.Uint64(b[2:])), 10
		}
		if len(b) < off+n {
			break
		}
		p := string(b[off : off+n])
		ws.buf = b[off+n:]
		if ws.closeRx != 0 {
			continue
		}
		switch op {
		case 1:
			if !fin {
				ws.c.Violatef("a message is split in fragments")
			}
			if !utf8.ValidString(p) {
				ws.c.Violatef("a text frame is not valid UTF-8: %q", p)
			}
			if p == "" || strings.ContainsAny(p, "\r\n\x00") {
				ws.c.Violatef("a frame does not hold one message: %q", p)
			}
			m, err := irc.ParseMessage(p)
			if err != nil {
				ws.c.Violatef("an unparsable frame %q: %v", p, err)
				continue
			}
			if m.Command == "PING" && len(m.Params) > 0 && !ws.noPong {
				ws.Send("PONG :" + m.Params[0])
				answered = true
				continue
			}
			ws.msgs = append(ws.msgs, m)
		case 8:
			ws.closeRx = 1005
			if len(p) >= 2 {
				ws.closeRx = int(binary.BigEndian.Uint16([]byte(p)))
			}
			if !ws.noClose {
				ws.mc.Feed(c35Frame(8, true, p))
				answered = true
			}
		case 9:
			ws.mc.Feed(c35Frame(10, true, p))
			answered = true
		case 10:
			ws.pongs += p + ";"
		default:
			ws.c.Violatef("a frame of kind %x", op)
		}
	}
	return answered
}

func (ws *c35WS) Take() []*irc.Message {
	for i := 0; i < 1000; i++ {
		ws.w.Settle()
		if !ws.fetch() {
			break
		}
	}
	m := ws.msgs
	ws.msgs = nil
	return m
}

func (ws *c35WS) Do(line string) []*irc.Message {
	ws.Send(line)
	return ws.Take()
}

func (ws *c35WS) Closed() bool { return ws.mc.Closed() }
func (ws *c35WS) Hangup()      { ws.mc.Hangup(); ws.w.Settle() }

// c35Client is either kind of client.
type c35Client interface {
	Send(string)
	Do(string) []*irc.Message
	Take() []*irc.Message
	Closed() bool
}

func c35Register(cl c35Client, user, caps string) {
	if caps != "" {
		cl.Send("CAP LS 302")
		cl.Send("CAP REQ :" + caps)
	}
	cl.Send("PASS alice")
	cl.Send("NICK al")
	cl.Send("USER " + user + " 0 * :al")
	if caps != "" {
		cl.Send("CAP END")
	}
}

// c35Acts are the actions of the comparison: on the client, or on the server.
var c35Acts = []struct {
	name, do string
	server   bool
}{
	{name: "say", do: "PRIVMSG #c :hello there"},
	{name: "saylong", do: "PRIVMSG #c :" + strings.Repeat("é", 180)},
	{name: "saybytes", do: "PRIVMSG #c :caf\xe9 \xff"},
	{name: "tag", do: "@+draft/react=x;label=1 TAGMSG #c"},
	{name: "dm", do: "@label=l2 PRIVMSG bob :\x01ACTION waves\x01"},
	{name: "join", do: "JOIN #d"},
	{name: "part", do: "PART #c :bye"},
	{name: "who", do: "WHO #c"},
	{name: "ping", do: "PING :a b"},
	{name: "nocommand", do: "FROB x"},
	{name: "few", do: "PRIVMSG"},
	{name: "service", do: "PRIVMSG BouncerServ :network status"},
	{name: "away", do: "AWAY :lunch"},
	{name: "history", do: "CHATHISTORY LATEST #c * 10"},
	{name: "names", do: "NAMES #c"},
	{name: "quit", do: "QUIT :done"},
	{name: "prefix", do: ":x!y@z PRIVMSG #c :spoof"},
	{name: "lower", do: "privmsg #c hi"},
	{name: "newline", do: "PRIVMSG #c :hi\r\n"},
	{name: "up-say", do: ":bob!b@h PRIVMSG #c :hi al", server: true},
	{name: "up-bytes", do: ":bob!b@h PRIVMSG #c :caf\xe9 \xf0\x9f\x98 end\xff", server: true},
	{name: "up-tags", do: "@+draft/react=\xff\\n;msgid=q PRIVMSG #c :x", server: true},
	{name: "up-long", do: ":bob!b@h PRIVMSG #c :" + strings.Repeat("x", 6000), server: true},
	{name: "up-join", do: ":bob!b@h JOIN #c", server: true},
	{name: "up-topic", do: ":bob!b@h TOPIC #c :new", server: true},
	{name: "drop", server: true},
}

// c35Norm is a message without what differs from a run to the next: times,
// identifiers, and the order of sets.
func c35Norm(m *irc.Message) string {
	var tags []string
	for k, v := range m.Tags {
		switch k {
		case "time", "batch":
			v = "X"
		case "label":
			if strings.HasPrefix(string(v), "sd-") {
				v = "X"
			}
		}
		tags = append(tags, k+"="+string(v))
	}
	sort.Strings(tags)
	m = m.Copy()
	m.Tags = nil
	line := m.String()
	switch m.Command {
	case "003", "BATCH":
		line = m.Command
	case "005", "CAP", "353":
		w := strings.FieldsFunc(line, func(r rune) bool { return r == ' ' || r == ':' })
		sort.Strings(w)
		line = strings.Join(w, " ")
	}
	return strings.ToValidUTF8(strings.Join(append(tags, line), " "), "\uFFFD")
}

func c35Run(c *kit.Ctx, ws bool, caps string, seq []string) (out [][]string, closed bool) {
	w := kit.NewWorld(c)
	defer w.Close()
	w.Cfg.MsgStoreDriver = "db"
	u := w.AddUser("alice", nil)
	n, s := w.AddNetwork(u, "net", nil)
	w.AddChannel(n, "#c", nil)
	s.Caps = []string{"message-tags", "echo-message", "server-time", "batch", "labeled-response"}
	w.Start()
	w.AwaitLive(s, time.Minute)
	var cl c35Client
	if ws {
		x := c35Dial(c, w, "127.0.0.1:4000", c35Headers())
		defer x.mc.Hangup()
		if x.rw.code != 101 {
			c.Violatef("the handshake is answered with %d", x.rw.code)
			return nil, false
		}
		cl = x
	} else {
		cl = w.Dial("a")
	}
	c35Register(cl, "alice/net@a", caps)
	w.Settle()
	take := func(msgs []*irc.Message) {
		var l []string
		for _, m := range msgs {
			line := c35Norm(m)
			l = append(l, line)
		}
		isCap := func(s string) bool { return strings.Contains(s, "CAP DEL") || strings.Contains(s, "CAP NEW") }
		for i := 0; i < len(l); i++ { // in any order
			j := i
			for j < len(l) && isCap(l[j]) {
				j++
			}
			sort.Strings(l[i:j])
		}
		out = append(out, l)
	}
	take(cl.Take())
	for _, a := range seq {
		if c.Bad() {
			return
		}
		for _, d := range c35Acts {
			if d.name != a {
				continue
			}
			switch {
			case a == "drop":
				s.Drop()
				w.AwaitLive(s, time.Minute)
				w.Sleep(5 * time.Second)
				take(cl.Take())
			case d.server:
				s.Do(d.do)
				take(cl.Take())
			default:
				take(cl.Do(d.do))
			}
		}
		var l []string
		for _, uc := range s.Conns {
			for _, m := range uc.Take() {
				if m.Command != "PING" && m.Command != "PONG" {
					l = append(l, c35Norm(m))
				}
			}
		}
		out = append(out, l)
	}
	w.Sleep(15 * time.Second)
	take(cl.Take())
	return out, cl.Closed()
}

func TestC35(t *testing.T) {
	r := kit.Start(t, "C35")

	// the same conversations over both kinds of connections
	var acts []string
	for _, a := range c35Acts {
		acts = append(acts, a.name)
	}
	for _, caps := range []string{"", "message-tags batch server-time echo-message draft/chathistory away-notify"} {
		caps := caps
		r.Tree(fmt.Sprintf("same/%v", caps != ""), r.Pick(2, 3), func(seq []string) []string {
			if len(seq) > 0 && seq[len(seq)-1] == "quit" {
				return nil
			}
			return acts
		}, func(key string, seq []string) {
			r.Bubble(key, func(c *kit.Ctx) {
				want, wc := c35Run(c, false, caps, seq)
				got, gc := c35Run(c, true, caps, seq)
				if c.Bad() {
					return
				}
				c.Check(wc == gc, "the plain connection is closed: %v, the WebSocket connection: %v", wc, gc)
				for i := range want {
					if i >= len(got) || !kit.Eq(want[i], got[i]) {
						for j := 0; i < len(got) && j < len(want[i]) && j < len(got[i]); j++ {
							if want[i][j] != got[i][j] {
								c.Violatef("step %d of %v: a plain connection gives %q, a WebSocket connection %q", i, seq, want[i][j], got[i][j])
								return
							}
						}
						c.Violatef("step %d of %v (0: registration; then what the client and the server receive): a plain connection gives %q, a WebSocket connection %q", i, seq, want[i], got[i])
						return
					}
				}
			})
		})
	}

	world := func(key string, f func(c *kit.Ctx, w *kit.World, s *kit.UpServer)) {
		r.World(key, func(c *kit.Ctx, w *kit.World) {
			u := w.AddUser("alice", nil)
			n, s := w.AddNetwork(u, "net", nil)
			w.AddChannel(n, "#c", nil)
			_, _ = w.AddNetwork(u, "other", func(n *database.Network) { n.Enabled = false })
			w.Start()
			w.AwaitLive(s, time.Minute)
			f(c, w, s)
		})
	}
	connect := func(c *kit.Ctx, w *kit.World, user string) *c35WS {
		ws := c35Dial(c, w, "127.0.0.1:4000", c35Headers())
		c35Register(ws, user, "")
		ws.Take()
		return ws
	}
	said := func(s *kit.UpServer) []string {
		var l []string
		for _, uc := range s.Conns {
			for _, m := range uc.Take() {
				if m.Command != "PING" && m.Command != "PONG" {
					l = append(l, m.String())
				}
			}
		}
		return l
	}

	// how a message may be put in frames
	msg := "PRIVMSG #c :hello wörld"
	type frameT struct {
		name, bytes string
		want        []string // what the server gets
		closes      bool
		either      bool // the connection may be closed or not
	}
	one := []string{msg}
	ping := c35Frame(9, true, "pp")
	frames := []frameT{
		{"text", c35Frame(1, true, msg), one, false, false},
		{"binary", c35Frame(2, true, msg), one, false, false},
		{"crlf", c35Frame(1, true, msg+"\r\n"), one, false, false},
		{"lf", c35Frame(1, true, msg+"\n"), one, false, false},
		{"two", c35Frame(1, true, msg) + c35Frame(1, true, msg), []string{msg, msg}, false, false},
		{"tags", c35Frame(1, true, "@+a=b "+msg), one, false, false},
		{"ping", ping + c35Frame(1, true, msg), one, false, false},
		{"pong", c35Frame(10, true, "x") + c35Frame(1, true, msg), one, false, false},
		{"inject-crlf", c35Frame(1, true, msg+"\r\nOPER a b"), nil, false, true},
		{"inject-lf", c35Frame(1, true, msg+"\nOPER a b"), nil, false, true},
		{"inject-binary", c35Frame(2, true, msg+"\r\nOPER a b"), nil, false, true},
		{"inject-middle", c35Frame(1, true, "PRIVMSG #c\nx :y"), nil, false, true},
		{"inject-fragment", c35Frame(1, false, msg+"\r") + c35Frame(0, true, "\nOPER a b"), nil, false, true},
		{"empty", c35Frame(1, true, ""), nil, false, true},
		{"large", c35Frame(1, true, "PRIVMSG #c :"+strings.Repeat("x", 70000)), nil, true, false},
		{"hugefragments", c35Frame(1, false, "PRIVMSG #c :") + strings.Repeat(c35Frame(0, false, strings.Repeat("y", 1000)), 70), nil, true, false},
		{"close", c35Frame(8, true, "\x03\xe8bye") + c35Frame(1, true, msg), nil, true, false},
		{"going", c35Frame(8, true, "\x03\xe9"), nil, true, false},
		{"closenone", c35Frame(8, true, ""), nil, true, false},
		{"reserved", c35Frame(3, true, msg), nil, true, false},
		{"rsv", string([]byte{c35Frame(1, true, msg)[0] | 0x40}) + c35Frame(1, true, msg)[1:], nil, true, false},
		{"unmasked", "\x81" + string(rune(len(msg))) + msg, nil, true, false},
		{"orphan", c35Frame(0, true, msg), nil, true, false},
		{"nested", c35Frame(1, false, msg) + c35Frame(1, true, msg), nil, true, false},
		{"bigping", c35Frame(9, true, strings.Repeat("p", 126)), nil, true, false},
		{"fragping", c35Frame(9, false, "p"), nil, true, false},
	}
	for i := 0; i <= len(msg); i++ {
		frames = append(frames,
			frameT{fmt.Sprintf("split-%d", i), c35Frame(1, false, msg[:i]) + c35Frame(0, true, msg[i:]), one, false, false},
			frameT{fmt.Sprintf("splitping-%d", i), c35Frame(1, false, msg[:i]) + ping + c35Frame(0, true, msg[i:]), one, false, false})
		for j := i; j <= len(msg) && r.Thorough(); j++ {
			frames = append(frames, frameT{fmt.Sprintf("split-%d-%d", i, j), c35Frame(1, false, msg[:i]) + c35Frame(0, false, msg[i:j]) + c35Frame(0, true, msg[j:]), one, false, false})
		}
	}
	for _, f := range frames {
		n := len(f.bytes)
		cuts := []int{0, 1, 2, 5, 6, 7, n / 2, n - 1}
		for ci, cut := range cuts {
			if cut >= n || ci > 0 && cut == 0 {
				continue
			}
			f, cut := f, cut
			world(fmt.Sprintf("frame/%s/%d/%d", f.name, ci, cut), func(c *kit.Ctx, w *kit.World, s *kit.UpServer) {
				other := w.Connect("o", kit.ConnOpts{User: "alice", Network: "net", Client: "o"})
				ws := connect(c, w, "alice/net@a")
				defer ws.mc.Hangup()
				said(s)
				other.Take()
				ws.mc.Feed(f.bytes[:cut])
				w.Settle()
				ws.mc.Feed(f.bytes[cut:])
				ws.Take()
				w.Sleep(20 * time.Second)
				ws.Take()
				if got := said(s); !kit.Eq(got, f.want) {
					c.Violatef("after the frame %q the server receives %q, expected %q", f.name, got, f.want)
					return
				}
				if strings.Contains(f.name, "ping") && !f.closes && ws.pongs != "pp;" {
					c.Violatef("a ping with the payload %q is answered with %q", "pp;", ws.pongs)
				}
				var echo []string
				for _, m := range kit.Select(other.Take(), "PRIVMSG") {
					echo = append(echo, m.Params[1])
				}
				var wantEcho []string
				for range f.want {
					wantEcho = append(wantEcho, "hello wörld")
				}
				if !kit.Eq(echo, wantEcho) {
					c.Violatef("after the frame %q the other client receives %q", f.name, echo)
				}
				if f.closes {
					c.Check(ws.Closed(), "the connection stays open after the frame %q", f.name)
				} else if !f.either {
					got := kit.CmdLines(ws.Do("PING :still"))
					c.Check(len(got) == 1 && strings.Contains(got[0], "still"), "after the frame %q a PING is answered with %q", f.name, got)
				}
				// nobody else suffers
				c.Check(len(kit.Select(other.Do("PING :x"), "PONG")) == 1, "the other client gets no answer")
			})
		}
	}
	r.Bound("frame: %d ways to put messages in frames, received in one or two pieces", len(frames))

	// clients which do not answer the closing handshake, or anything
	for _, kind := range []string{"good", "noclose", "stalled", "gone"} {
		for _, n := range []int{1, 2, 3} {
			for _, ev := range []string{"password", "disable", "delnetwork", "deluser", "shutdown", "garbage", "quit"} {
				kind, n, ev := kind, n, ev
				world(fmt.Sprintf("closing/%s/%d/%s", kind, n, ev), func(c *kit.Ctx, w *kit.World, s *kit.UpServer) {
					w.AddUser("root", func(u *database.User) { u.Admin = true })
					w.Restart()
					w.AwaitLive(s, time.Minute)
					root := w.Connect("root", kit.ConnOpts{User: "root"})
					var all []*c35WS
					for i := 0; i < n; i++ {
						ws := connect(c, w, fmt.Sprintf("alice/net@%d", i))
						defer ws.mc.Hangup()
						ws.noClose = kind != "good"
						switch kind {
						case "stalled":
							ws.mc.Stall(true)
						case "gone":
							ws.mc.FailWrites(net.ErrClosed)
						}
						all = append(all, ws)
					}
					adm := w.DialAdmin("adm")
					start := time.Now()
					answered := true
					switch ev {
					case "password":
						adm.Send("BOUNCERSERV :user update alice -password new")
					case "disable":
						adm.Send("BOUNCERSERV :user update alice -enabled false")
					case "deluser":
						for _, m := range adm.Do("BOUNCERSERV :user delete alice") {
							if t := m.Params[len(m.Params)-1]; strings.Contains(t, "user delete alice ") {
								tok := strings.Fields(t[strings.Index(t, "user delete alice "):])[3]
								adm.Send("BOUNCERSERV :user delete alice " + strings.Trim(tok, "\"'.,"))
							}
						}
					case "delnetwork":
						adm.Send("BOUNCERSERV :user run alice network delete net")
					case "shutdown":
						w.ShutdownAsync()
					case "garbage":
						for _, ws := range all {
							ws.mc.Feed(c35Frame(1, true, ""))
						}
					case "quit":
						for _, ws := range all {
							ws.Send("QUIT")
						}
					}
					for _, ws := range all {
						ws.Take()
					}
					w.Settle()
					if asked := len(adm.Take()); ev != "shutdown" && ev != "garbage" && ev != "quit" {
						answered = asked > 0
					}
					if !c.Check(answered && time.Now().Sub(start) == 0, "%s is only done after %v (answered: %v) with %d clients (%s)", ev, time.Now().Sub(start), answered, n, kind) {
						return
					}
					if ev != "shutdown" && !c.Bad() {
						c.Check(len(kit.Select(root.Do("PING :x"), "PONG")) == 1, "another user gets no answer")
					}
					if ev == "delnetwork" || ev == "garbage" || ev == "quit" {
						cl := w.Connect("z", kit.ConnOpts{User: "alice"})
						c.Check(len(kit.Select(cl.Take(), "001")) == 1, "a new client of the user is not welcomed at once after %s with %d clients (%s)", ev, n, kind)
					}
					for i := 0; i < 8; i++ {
						for _, ws := range all {
							ws.Take()
						}
						w.Sleep(5 * time.Second)
					}
					for i, ws := range all {
						c.Check(ws.Closed() && ws.done, "client %d (%s) is still connected 40 s after %s (closed: %v, handler done: %v)", i, kind, ev, ws.Closed(), ws.done)
						if kind == "good" && ev != "garbage" {
							c.Check(ws.closeRx == 1000, "client %d is closed with status %d after %s", i, ws.closeRx, ev)
						}
					}
				})
			}
		}
	}

	// clients which stop half-way
	steps := []string{"CAP LS 302", "CAP REQ :server-time", "PASS alice", "NICK al", "USER alice 0 * :al"}
	for k := 0; k <= len(steps); k++ {
		for _, silent := range []bool{false, true} {
			for _, tail := range []string{"", "half", "fragment", "ping"} {
				k, silent, tail := k, silent, tail
				world(fmt.Sprintf("slow/%d/%v/%s", k, silent, tail), func(c *kit.Ctx, w *kit.World, s *kit.UpServer) {
					ws := c35Dial(c, w, "127.0.0.1:4000", c35Headers())
					defer ws.mc.Hangup()
					ws.noClose = silent
					for _, l := range steps[:k] {
						ws.Send(l)
						ws.Take()
					}
					switch f := c35Frame(1, true, "CAP END"); tail {
					case "half":
						ws.mc.Feed(f[:5])
					case "fragment":
						ws.mc.Feed(c35Frame(1, false, "CAP "))
					}
					for t := 0; t < 40; t += 5 {
						if tail == "ping" {
							ws.mc.Feed(c35Frame(9, true, "p"))
						}
						ws.Take()
						w.Sleep(5 * time.Second)
						if t < 20 {
							c.Check(!ws.Closed(), "the connection is closed after %d s", t+5)
						}
					}
					ws.Take()
					c.Check(ws.Closed() && ws.done, "a client which stops after %q is still connected after 40 s (closed: %v, handler done: %v)", steps[:k], ws.Closed(), ws.done)
				})
			}
		}
	}
	for _, n := range []int{1, 3, 40, 200} {
		for _, k := range []int{1, 2} {
			n, k := n, k
			world(fmt.Sprintf("stalled/%d/%d", n, k), func(c *kit.Ctx, w *kit.World, s *kit.UpServer) {
				var all []*c35WS
				for i := 0; i < k; i++ {
					ws := connect(c, w, fmt.Sprintf("alice/net@s%d", i))
					defer ws.mc.Hangup()
					ws.noClose = true
					ws.mc.Stall(true)
					all = append(all, ws)
				}
				good := connect(c, w, "alice/net@good")
				defer good.mc.Hangup()
				plain := w.Connect("p", kit.ConnOpts{User: "alice", Network: "net", Client: "p"})
				var want []string
				for i := 0; i < n; i++ {
					s.Send(fmt.Sprintf(":bob!b@h PRIVMSG #c :m%d", i))
					want = append(want, fmt.Sprintf("m%d", i))
				}
				var got, gotp []string
				for t := 0; t < 30; t += 5 {
					for _, m := range kit.Select(good.Take(), "PRIVMSG") {
						got = append(got, m.Params[1])
					}
					for _, m := range kit.Select(plain.Take(), "PRIVMSG") {
						gotp = append(gotp, m.Params[1])
					}
					w.Sleep(5 * time.Second)
				}
				c.Check(kit.Eq(gotp, want), "the plain client receives %q", gotp)
				c.Check(kit.Eq(got, want), "the good client receives %q", got)
				c.Check(!good.Closed(), "the good client is disconnected")
				for i, ws := range all {
					c.Check(ws.Closed() && ws.done, "stalled client %d is still connected after 30 s (closed: %v, handler done: %v)", i, ws.Closed(), ws.done)
				}
			})
		}
	}

	// the handshake
	type hsT struct {
		name    string
		edit    func(h http.Header)
		origins []string
		ok      bool
	}
	set := func(k, v string) func(http.Header) {
		return func(h http.Header) {
			if v == "" {
				h.Del(k)
			} else {
				h.Set(k, v)
			}
		}
	}
	hs := []hsT{
		{"plain", nil, nil, true},
		{"noupgrade", set("Upgrade", ""), nil, false},
		{"otherupgrade", set("Upgrade", "h2c"), nil, false},
		{"noconnection", set("Connection", ""), nil, false},
		{"keepalive", set("Connection", "keep-alive, Upgrade"), nil, true},
		{"version", set("Sec-WebSocket-Version", "8"), nil, false},
		{"nokey", set("Sec-WebSocket-Key", ""), nil, false},
		{"proto", set("Sec-WebSocket-Protocol", "text.ircv3.net"), nil, true},
		{"binproto", set("Sec-WebSocket-Protocol", "binary.ircv3.net, text.ircv3.net"), nil, true},
		{"otherproto", set("Sec-WebSocket-Protocol", "chat"), nil, true},
	}
	for _, o := range []string{"https://bouncer.test", "http://bouncer.test", "https://BOUNCER.test", "https://evil.test", "https://bouncer.test.evil.test", "https://evil.test/bouncer.test", "https://bouncer.test:8443", "null", "https://web.example.org", "https://a.web.example.org", "https://webXexample.org"} {
		for pi, pats := range [][]string{nil, {"web.example.org"}, {"*.example.org"}, {"web.example.org", "evil.*"}} {
			host := strings.ToLower(strings.SplitN(strings.TrimPrefix(strings.TrimPrefix(o, "https://"), "http://"), "/", 2)[0])
			ok := host == "bouncer.test"
			for _, p := range pats {
				switch p {
				case "web.example.org":
					ok = ok || host == p
				case "*.example.org":
					ok = ok || strings.HasSuffix(host, ".example.org")
				case "evil.*":
					ok = ok || strings.HasPrefix(host, "evil.")
				}
			}
			if o == "null" {
				ok = false
			}
			hs = append(hs, hsT{fmt.Sprintf("origin/%s/%d", o, pi), set("Origin", o), pats, ok})
		}
	}
	for _, x := range hs {
		x := x
		r.World("handshake/"+x.name, func(c *kit.Ctx, w *kit.World) {
			w.AddUser("alice", nil)
			w.Cfg.HTTPOrigins = x.origins
			w.Start()
			h := c35Headers()
			if x.edit != nil {
				x.edit(h)
			}
			ws := c35Dial(c, w, "127.0.0.1:4000", h)
			defer ws.mc.Hangup()
			c.Check((ws.rw.code == 101) == x.ok, "the handshake is answered with %d", ws.rw.code)
			if !x.ok {
				c.Check(!ws.rw.hij && ws.done, "the connection is taken over although the handshake fails")
				return
			}
			if p := h.Get("Sec-WebSocket-Protocol"); strings.Contains(p, "text.ircv3.net") != (ws.rw.h.Get("Sec-WebSocket-Protocol") == "text.ircv3.net") {
				c.Violatef("offered the protocols %q, the bouncer selects %q", p, ws.rw.h.Get("Sec-WebSocket-Protocol"))
			}
			c.Check(ws.rw.h.Get("Sec-WebSocket-Accept") == "s3pPLMBiTxaQ9kYGzzhZRbK+xOo=", "wrong accept key %q", ws.rw.h.Get("Sec-WebSocket-Accept"))
			c35Register(ws, "alice", "")
			c.Check(len(kit.Select(ws.Take(), "001")) == 1, "the client is not welcomed")
		})
	}
	r.Bound("handshake: %d requests", len(hs))

	// whom the bouncer takes the client for
	_, v4, _ := net.ParseCIDR("192.0.2.0/24")
	_, v6, _ := net.ParseCIDR("2001:db8::/32")
	_, lo, _ := net.ParseCIDR("127.0.0.0/8")
	sets := map[string]config.IPSet{"none": nil, "v4": {v4}, "v6": {v6}, "all": {lo, v4, v6}}
	for _, sn := range []string{"none", "v4", "v6", "all"} {
		for _, remote := range []string{"192.0.2.7:40", "198.51.100.1:41", "[2001:db8::1]:42", "[2002::1]:43", "127.0.0.1:44", "@"} {
			for _, h := range [][3]string{{"", "", ""}, {"Forwarded", "for=203.0.113.9", "203.0.113.9"}, {"Forwarded", `proto=https; for="[2001:db8:f::1]:99"; host=x`, "[2001:db8:f::1]:99"}, {"X-Forwarded-For", "203.0.113.10", "203.0.113.10"}, {"Forwarded", "proto=https", ""}, {"X-Forwarded-Proto", "https", ""}, {"Forwarded", `for="_x\"y"`, `_x"y`}} {
				sn, remote, h := sn, remote, h
				r.World(fmt.Sprintf("address/%s/%s/%s=%s", sn, remote, h[0], h[1]), func(c *kit.Ctx, w *kit.World) {
					w.AddUser("alice", nil)
					w.Cfg.AcceptProxyIPs = sets[sn]
					w.Start()
					hd := c35Headers()
					if h[0] != "" {
						hd.Set(h[0], h[1])
					}
					ws := c35Dial(c, w, remote, hd)
					defer ws.mc.Hangup()
					c35Register(ws, "alice", "")
					c.Check(len(kit.Select(ws.Take(), "001")) == 1, "the client is not welcomed")
					want := remote
					if host, _, err := net.SplitHostPort(remote); err == nil && h[2] != "" {
						for _, n := range sets[sn] {
							if n.Contains(net.ParseIP(host)) {
								want = h[2]
							}
						}
					}
					line := ""
					for _, l := range strings.Split(w.Log.String(), "\n") {
						if strings.Contains(l, "registration complete") {
							line = l
						}
					}
					if !strings.Contains(line, fmt.Sprintf("downstream %q: ", want)) {
						c.Violatef("the bouncer logs %q, expected the address %q", line, want)
					}
				})
			}
		}
	}
}
