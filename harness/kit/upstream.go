package kit

import (
	"bytes"
	"fmt"
	"net"
	"sort"
	"strings"
	"time"

	"gopkg.in/irc.v4"
)

// SimChan is the channel state kept by a simulated server.
type SimChan struct {
	Name    string
	Key     string
	Topic   string
	TopicBy string
	Members map[string]string // nick -> prefix characters
	Modes   string
}

// UpServer is a scripted IRC server. Unless Hook handles a message, it answers
// like a minimal well-behaved server.
type UpServer struct {
	W         *World
	Addr      string
	Name      string
	Caps      []string // "name" or "name=value"
	ISupport  []string
	Refuse    bool
	Silent    bool // do not answer anything
	NoMotd    bool
	Hook      func(uc *UpConn, m *irc.Message) bool
	Wrap      func(net.Conn) net.Conn
	Conns     []*UpConn
	Chans     map[string]*SimChan
	HoldNames bool // do not send 353/366 on join
}

func NewUpServer(w *World, addr string) *UpServer {
	return &UpServer{
		W: w, Addr: addr,
		Name:     strings.SplitN(addr, ":", 2)[0],
		ISupport: []string{"CASEMAPPING=ascii", "soju.im/SAFERATE", "CHANTYPES=#", "PREFIX=(ov)@+", "CHANMODES=b,k,l,imnpst"},
		Chans:    map[string]*SimChan{},
	}
}

// UpConn is one connection from the bouncer to a simulated server.
type UpConn struct {
	S          *UpServer
	c          *MemConn
	At         time.Time
	buf        []byte
	All        []*irc.Message
	Raw        []string
	pos        int
	Nick       string
	User       string
	Real       string
	Registered bool
	capNeg     bool
	gotUser    bool
	Caps       map[string]bool
}

// Live returns the current registered connection, or nil.
func (s *UpServer) Live() *UpConn {
	for i := len(s.Conns) - 1; i >= 0; i-- {
		uc := s.Conns[i]
		if uc.Registered && !uc.c.Closed() && !uc.c.hungUp() {
			return uc
		}
	}
	return nil
}

// Last returns the most recent connection, or nil.
func (s *UpServer) Last() *UpConn {
	if len(s.Conns) == 0 {
		return nil
	}
	return s.Conns[len(s.Conns)-1]
}

// OpenConns counts connections the bouncer has not closed and the server has
// not hung up.
func (s *UpServer) OpenConns() int {
	n := 0
	for _, uc := range s.Conns {
		if !uc.c.Closed() && !uc.c.hungUp() {
			n++
		}
	}
	return n
}

// Send sends a raw line on the live connection (no settling).
func (s *UpServer) Send(line string) {
	if uc := s.Live(); uc != nil {
		uc.Send(line)
	}
}

// Do sends a line and settles.
func (s *UpServer) Do(line string) {
	s.Send(line)
	s.W.Settle()
}

// Drop hangs up the live connection and settles.
func (s *UpServer) Drop() {
	if uc := s.Live(); uc != nil {
		uc.c.Hangup()
	}
	s.W.Settle()
}

func (uc *UpConn) Send(line string) { uc.c.Feed(line + "\r\n") }
func (uc *UpConn) Conn() *MemConn   { return uc.c }
func (uc *UpConn) Closed() bool     { return uc.c.Closed() }
func (uc *UpConn) Hangup()          { uc.c.Hangup() }
func (uc *UpConn) numeric(code string, rest string) {
	nick := uc.Nick
	if nick == "" {
		nick = "*"
	}
	uc.Send(":" + uc.S.Name + " " + code + " " + nick + " " + rest)
}

// Take returns the messages received since the last Take.
func (uc *UpConn) Take() []*irc.Message {
	m := uc.All[uc.pos:]
	uc.pos = len(uc.All)
	return m
}

// Take returns what the bouncer sent on all connections since the last Take.
func (s *UpServer) Take() []*irc.Message {
	var out []*irc.Message
	for _, uc := range s.Conns {
		out = append(out, uc.Take()...)
	}
	return out
}

func (uc *UpConn) fetch() bool {
	b := uc.c.Output()
	if len(b) == 0 {
		return false
	}
	uc.buf = append(uc.buf, b...)
	for {
		i := bytes.IndexByte(uc.buf, '\n')
		if i < 0 {
			return true
		}
		line := strings.TrimRight(string(uc.buf[:i]), "\r")
		uc.buf = uc.buf[i+1:]
		uc.Raw = append(uc.Raw, line)
		m, err := irc.ParseMessage(line)
		if err != nil {
			uc.S.W.C.Violatef("server %s received an unparsable line %q: %v", uc.S.Name, line, err)
			continue
		}
		uc.All = append(uc.All, m)
		uc.handle(m)
	}
}

func (uc *UpConn) Mask() string { return uc.Nick + "!" + uc.User + "@host" }

func (uc *UpConn) maybeWelcome() {
	if uc.Registered || uc.capNeg || !uc.gotUser || uc.Nick == "" {
		return
	}
	uc.Welcome()
}

// Welcome sends the registration burst.
func (uc *UpConn) Welcome() {
	s := uc.S
	uc.Registered = true
	uc.numeric("001", ":Welcome")
	uc.numeric("002", ":Your host")
	uc.numeric("003", ":Created")
	uc.numeric("004", s.Name+" v1 iow bklimnopstv")
	if len(s.ISupport) > 0 {
		uc.numeric("005", strings.Join(s.ISupport, " ")+" :are supported")
	}
	if !s.NoMotd {
		uc.numeric("422", ":No MOTD")
	}
}

func (s *UpServer) chanOf(name string) *SimChan {
	k := strings.ToLower(name)
	ch := s.Chans[k]
	if ch == nil {
		ch = &SimChan{Name: name, Members: map[string]string{}}
		s.Chans[k] = ch
	}
	return ch
}

// Chan returns the simulated channel state.
func (s *UpServer) Chan(name string) *SimChan { return s.chanOf(name) }

// NamesLine returns the member list as in RPL_NAMREPLY.
func (ch *SimChan) NamesLine() string {
	var l []string
	for n, p := range ch.Members {
		l = append(l, p+n)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// SendJoin makes the server confirm that the connection joined the channel.
func (uc *UpConn) SendJoin(name string) {
	ch := uc.S.chanOf(name)
	ch.Members[uc.Nick] = ""
	uc.Send(":" + uc.Mask() + " JOIN " + ch.Name)
	if ch.Topic != "" {
		uc.numeric("332", ch.Name+" :"+ch.Topic)
	}
	if !uc.S.HoldNames {
		uc.SendNames(name)
	}
}

func (uc *UpConn) SendNames(name string) {
	ch := uc.S.chanOf(name)
	uc.numeric("353", "= "+ch.Name+" :"+ch.NamesLine())
	uc.numeric("366", ch.Name+" :End of /NAMES list")
}

func (uc *UpConn) handle(m *irc.Message) {
	s := uc.S
	if s.Hook != nil && s.Hook(uc, m) {
		return
	}
	if s.Silent {
		return
	}
	p := func(i int) string {
		if i < len(m.Params) {
			return m.Params[i]
		}
		return ""
	}
	switch strings.ToUpper(m.Command) {
	case "CAP":
		switch strings.ToUpper(p(0)) {
		case "LS":
			uc.capNeg = true
			uc.Send(":" + s.Name + " CAP * LS :" + strings.Join(s.Caps, " "))
		case "REQ":
			if uc.Caps == nil {
				uc.Caps = map[string]bool{}
			}
			for _, c := range strings.Fields(p(1)) {
				if strings.HasPrefix(c, "-") {
					delete(uc.Caps, c[1:])
				} else {
					uc.Caps[c] = true
				}
			}
			uc.Send(":" + s.Name + " CAP * ACK :" + p(1))
		case "END":
			uc.capNeg = false
			uc.maybeWelcome()
		}
	case "AUTHENTICATE":
		switch {
		case p(0) == "PLAIN" || p(0) == "EXTERNAL":
			uc.Send("AUTHENTICATE +")
		case p(0) == "*":
			uc.numeric("906", ":SASL authentication aborted")
		default:
			uc.numeric("900", uc.Nick+"!u@h acct :You are now logged in")
			uc.numeric("903", ":SASL authentication successful")
		}
	case "NICK":
		if uc.Registered {
			old := uc.Mask()
			if p(0) != uc.Nick {
				for _, ch := range s.Chans {
					if pre, ok := ch.Members[uc.Nick]; ok {
						delete(ch.Members, uc.Nick)
						ch.Members[p(0)] = pre
					}
				}
				uc.Nick = p(0)
				uc.Send(":" + old + " NICK " + p(0))
			}
		} else {
			uc.Nick = p(0)
			uc.maybeWelcome()
		}
	case "USER":
		uc.gotUser = true
		uc.User = p(0)
		uc.Real = p(3)
		uc.maybeWelcome()
	case "PING":
		uc.Send(":" + s.Name + " PONG " + s.Name + " :" + p(0))
	case "JOIN":
		for _, name := range strings.Split(p(0), ",") {
			uc.SendJoin(name)
		}
	case "PART":
		for _, name := range strings.Split(p(0), ",") {
			ch := s.chanOf(name)
			delete(ch.Members, uc.Nick)
			uc.Send(":" + uc.Mask() + " PART " + ch.Name)
		}
	case "MODE":
		if len(m.Params) == 1 {
			if strings.HasPrefix(p(0), "#") {
				uc.numeric("324", p(0)+" +"+s.chanOf(p(0)).Modes)
			} else {
				uc.numeric("221", "+i")
			}
		}
	case "AWAY":
		if p(0) == "" {
			uc.numeric("305", ":You are no longer marked as being away")
		} else {
			uc.numeric("306", ":You have been marked as being away")
		}
	case "PRIVMSG", "NOTICE", "TAGMSG":
		if uc.Caps["echo-message"] {
			tags := ""
			if l, ok := m.Tags["label"]; ok && uc.Caps["labeled-response"] {
				tags = "@label=" + l + " "
			}
			line := tags + ":" + uc.Mask() + " " + m.Command + " " + p(0)
			if m.Command != "TAGMSG" {
				line += " :" + p(1)
			}
			uc.Send(line)
		}
	case "QUIT":
		uc.c.Hangup()
	}
}

// String describes the connection for counterexamples.
func (uc *UpConn) String() string { return fmt.Sprintf("%s#%p", uc.S.Name, uc) }
