package props

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"codeberg.org/emersion/soju/database"

	"sojuverif/kit"
)

// C14: a late client gets the same channel picture as one that was always
// there. The model is the state of the simulated server; clients interpret
// what they receive like an IRC client does.

type c14User struct {
	nick, user, host, acct, real string
	away, oper                   bool
}

type c14Chan struct {
	name    string
	joined  bool              // by us
	named   bool              // the names were sent
	topic   string            // "" for none
	who     string            // setter
	at      int64             // when
	members map[string]string // folded nick -> mode letters by rank
	modes   map[byte]string
	early   string // who came and went before the names were sent
	status  string // the visibility symbol in the names
}

type c14State struct {
	self  string
	users map[string]*c14User // folded nick
	chans map[string]*c14Chan // folded name
	multi bool                // multi-prefix
	ranks string              // mode letters by rank
	pre   string              // prefix characters by rank
	neg   bool                // the server withdraws what it said about modes
	extra int                 // attached clients
	asked string              // queries made on this connection
	umode string              // the user's modes
}

func (s *c14State) copy() *c14State {
	n := *s
	n.users = map[string]*c14User{}
	for k, v := range s.users {
		u := *v
		n.users[k] = &u
	}
	n.chans = map[string]*c14Chan{}
	for k, v := range s.chans {
		c := *v
		c.members = map[string]string{}
		for a, b := range v.members {
			c.members[a] = b
		}
		c.modes = map[byte]string{}
		for a, b := range v.modes {
			c.modes[a] = b
		}
		n.chans[k] = &c
	}
	return &n
}

func c14Sorted[V any](m map[string]V) []string {
	l := kit.Keys(m)
	sort.Strings(l)
	return l
}

func c14Modes(m map[byte]string) string {
	var l []string
	for k, v := range m {
		l = append(l, string(k)+v)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func (s *c14State) key() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s %d %s %s;", s.self, s.extra, s.asked, s.umode)
	for _, k := range c14Sorted(s.users) {
		fmt.Fprintf(&sb, "%+v;", *s.users[k])
	}
	for _, k := range c14Sorted(s.chans) {
		c := s.chans[k]
		fmt.Fprintf(&sb, "%s %v %v %s %q %s %d [", c.name, c.joined, c.named, c.early, c.topic, c.who, c.at)
		for _, n := range c14Sorted(c.members) {
			fmt.Fprintf(&sb, "%s:%s ", n, c.members[n])
		}
		fmt.Fprintf(&sb, "] %s;", c14Modes(c.modes))
	}
	return sb.String()
}

func c14Fold(s string) string { return strings.ToLower(s) }

func (s *c14State) mask(n string) string {
	u := s.users[c14Fold(n)]
	return u.nick + "!" + u.user + "@" + u.host
}

func (s *c14State) prefixes(modes string) string {
	var out []byte
	for i := 0; i < len(s.ranks); i++ {
		if strings.IndexByte(modes, s.ranks[i]) >= 0 {
			out = append(out, s.pre[i])
		}
	}
	return string(out)
}

func (s *c14State) sortModes(modes string) string {
	var out []byte
	for i := 0; i < len(s.ranks); i++ {
		if strings.IndexByte(modes, s.ranks[i]) >= 0 {
			out = append(out, s.ranks[i])
		}
	}
	return string(out)
}

// names lists the members as the server sends them; a server without
// multi-prefix only tells the highest prefix, so the rest is forgotten.
func (s *c14State) names(ch *c14Chan) []string {
	var l []string
	for _, n := range c14Sorted(ch.members) {
		if !s.multi && len(ch.members[n]) > 1 {
			ch.members[n] = ch.members[n][:1]
		}
		l = append(l, s.prefixes(ch.members[n])+s.users[n].nick)
	}
	return l
}

func (s *c14State) joinLines(ch *c14Chan) []string {
	return []string{":" + s.mask(s.self) + " JOIN " + ch.name + " * :" + s.users[c14Fold(s.self)].real}
}

func (s *c14State) namesLines(ch *c14Chan) []string {
	var l []string
	p := ":n1.test "
	if ch.topic != "" {
		l = append(l, p+"332 "+s.self+" "+ch.name+" :"+ch.topic, fmt.Sprintf("%s333 %s %s %s %d", p, s.self, ch.name, ch.who, ch.at))
	}
	names := s.names(ch)
	half := (len(names) + 1) / 2
	l = append(l, p+"353 "+s.self+" "+ch.status+" "+ch.name+" :"+strings.Join(names[:half], " "))
	if half < len(names) {
		l = append(l, p+"353 "+s.self+" "+ch.status+" "+ch.name+" :"+strings.Join(names[half:], " ")+" ")
	}
	return append(l, p+"366 "+s.self+" "+ch.name+" :End of names")
}

func (s *c14State) modesLine(ch *c14Chan) string {
	letters, args := "+", ""
	for _, m := range []byte("klinstmp") {
		if v, ok := ch.modes[m]; ok && !strings.Contains(letters, string(m)) {
			letters += string(m)
			if v != "" {
				args += " " + v
			}
		}
	}
	return ":n1.test 324 " + s.self + " " + ch.name + " " + letters + args
}

const c14Now = 946684800

// apply returns the next state and the lines the server sends.
func (s *c14State) apply(e string) (*c14State, []string) {
	n := s.copy()
	f := strings.Fields(e)
	self := c14Fold(n.self)
	switch f[0] {
	case "join": // join nick chan
		u := n.users[c14Fold(f[1])]
		u.oper = false // nobody can tell that it still is one
		ch := n.chans[c14Fold(f[2])]
		ch.members[c14Fold(f[1])] = ""
		if !ch.named {
			ch.early += " " + f[1]
		}
		acct := u.acct
		if acct == "" {
			acct = "*"
		}
		return n, []string{":" + n.mask(f[1]) + " JOIN " + f[2] + " " + acct + " :" + u.real}
	case "part":
		delete(n.chans[c14Fold(f[2])].members, c14Fold(f[1]))
		return n, []string{":" + n.mask(f[1]) + " PART " + f[2] + " :bye"}
	case "joins", "parts": // several channels in one line
		u := n.users[c14Fold(f[1])]
		u.oper = u.oper && f[0] == "parts"
		if f[0] == "parts" {
			delete(n.chans["#c"].members, c14Fold(f[1]))
			delete(n.chans["#d"].members, c14Fold(f[1]))
			return n, []string{":" + n.mask(f[1]) + " PART #D,#c :bye"}
		}
		for _, ch := range n.chans {
			ch.members[c14Fold(f[1])] = ""
			if !ch.named {
				ch.early += " " + f[1]
			}
		}
		acct := u.acct
		if acct == "" {
			acct = "*"
		}
		return n, []string{":" + n.mask(f[1]) + " JOIN #c,#D " + acct + " :" + u.real}
	case "kick":
		delete(n.chans[c14Fold(f[2])].members, c14Fold(f[1]))
		return n, []string{":" + n.mask("carol") + " KICK " + f[2] + " " + f[1] + " :out"}
	case "quit":
		m := n.mask(f[1])
		for _, ch := range n.chans {
			delete(ch.members, c14Fold(f[1]))
		}
		// the user may come back later as somebody fresh
		u := n.users[c14Fold(f[1])]
		*u = c14User{nick: u.nick, user: u.nick, host: "h", real: u.nick + " Real"}
		return n, []string{":" + m + " QUIT :gone"}
	case "nick": // nick old new
		old := c14Fold(f[1])
		m := n.mask(f[1])
		u := n.users[old]
		delete(n.users, old)
		u.nick = f[2]
		n.users[c14Fold(f[2])] = u
		for _, ch := range n.chans {
			if v, ok := ch.members[old]; ok {
				delete(ch.members, old)
				ch.members[c14Fold(f[2])] = v
			}
		}
		if old == self {
			n.self = f[2]
		}
		return n, []string{":" + m + " NICK " + f[2]}
	case "selfjoin": // without the names
		ch := n.chans["#d"]
		ch.joined, ch.named, ch.early = true, false, ""
		ch.members[self] = ""
		return n, n.joinLines(ch)
	case "names":
		ch := n.chans["#d"]
		ch.named = true
		ch.early = ""
		return n, append([]string{n.modesLine(ch)}, n.namesLines(ch)...)
	case "selfpart":
		ch := n.chans[c14Fold(f[1])]
		ch.joined, ch.named = false, false
		delete(ch.members, self)
		return n, []string{":" + n.mask(n.self) + " PART " + f[1]}
	case "selfkick":
		ch := n.chans[c14Fold(f[1])]
		ch.joined, ch.named = false, false
		delete(ch.members, self)
		return n, []string{":carol!carol@h KICK " + f[1] + " " + n.self + " :out"}
	case "rejoin":
		ch := n.chans["#c"]
		ch.joined, ch.named = true, true
		ch.members[self] = ""
		return n, append(n.joinLines(ch), n.namesLines(ch)...)
	case "topic": // topic who|time text
		ch := n.chans["#c"]
		ch.topic, ch.who, ch.at = "", n.mask("bob"), c14Now
		if len(f) > 2 {
			ch.topic = f[2]
		}
		tag := ""
		if f[1] == "past" {
			tag = "@time=1999-06-01T10:00:00.000Z "
			ch.at = 928231200
		}
		return n, []string{tag + ":" + n.mask("bob") + " TOPIC " + f[3-len(f)%2] + " :" + ch.topic}
	case "mode": // mode chan letters args...
		ch := n.chans[c14Fold(f[1])]
		args := f[3:]
		sign := byte('+')
		for i := 0; i < len(f[2]); i++ {
			m := f[2][i]
			if m == '+' || m == '-' {
				sign = m
				continue
			}
			if strings.IndexByte(n.ranks, m) >= 0 {
				k := c14Fold(args[0])
				args = args[1:]
				v := strings.ReplaceAll(ch.members[k], string(m), "")
				if sign == '+' {
					v += string(m)
				}
				if _, ok := ch.members[k]; ok {
					ch.members[k] = n.sortModes(v)
				}
				continue
			}
			arg := ""
			switch m {
			case 'b':
				args = args[1:]
				continue
			case 'k':
				arg, args = args[0], args[1:]
			case 'l':
				if sign == '+' {
					arg, args = args[0], args[1:]
				}
			}
			if sign == '+' {
				ch.modes[m] = arg
			} else {
				delete(ch.modes, m)
			}
		}
		return n, []string{":" + n.mask("carol") + " MODE " + strings.Join(f[1:], " ")}
	case "umode":
		for i := 1; i < len(f[1]); i++ {
			n.umode = strings.ReplaceAll(n.umode, f[1][i:i+1], "")
			if f[1][0] == '+' {
				n.umode += f[1][i : i+1]
			}
		}
		return n, []string{":" + n.self + " MODE " + n.self + " " + f[1]}
	case "221":
		n.umode = f[1][1:]
		return n, []string{":n1.test 221 " + n.self + " " + f[1]}
	case "repmode":
		ch := n.chans["#c"]
		ch.modes = map[byte]string{'n': "", 'k': "kk"}
		return n, []string{":n1.test 324 " + n.self + " #C +nk kk"}
	case "chghost":
		m := n.mask(f[1])
		u := n.users[c14Fold(f[1])]
		u.user, u.host = f[2], f[3]
		return n, []string{":" + m + " CHGHOST " + f[2] + " " + f[3]}
	case "away":
		u := n.users[c14Fold(f[1])]
		u.away = true
		return n, []string{":" + n.mask(f[1]) + " AWAY :gone"}
	case "back":
		n.users[c14Fold(f[1])].away = false
		return n, []string{":" + n.mask(f[1]) + " AWAY"}
	case "account":
		u := n.users[c14Fold(f[1])]
		u.acct = f[2]
		if f[2] == "*" {
			u.acct = ""
		}
		return n, []string{":" + n.mask(f[1]) + " ACCOUNT " + f[2]}
	case "setname":
		n.users[c14Fold(f[1])].real = f[2]
		return n, []string{":" + n.mask(f[1]) + " SETNAME :" + f[2]}
	case "attach":
		n.extra++
	case "who", "whox", "selfaway":
		n.asked = f[0]
	case "drop":
		n.asked = ""
		n.umode = ""
		n.self = "alice"
		for _, ch := range n.chans {
			delete(ch.members, self)
			ch.joined, ch.named, ch.early = false, false, ""
		}
		u := n.users[self]
		delete(n.users, self)
		*u = c14User{nick: "alice", user: "alice", host: "host", real: "alice"}
		n.users["alice"] = u
		ch := n.chans["#c"]
		ch.joined, ch.named = true, true
		ch.members["alice"] = ""
		n.names(ch)
	}
	return n, nil
}

func c14Init(multi bool, ranks, pre string) *c14State {
	s := &c14State{self: "alice", multi: multi, ranks: ranks, pre: pre, users: map[string]*c14User{}, chans: map[string]*c14Chan{}}
	for _, n := range []string{"alice", "bob", "carol"} {
		s.users[n] = &c14User{nick: n, user: n, host: "h", real: n + " Real"}
	}
	s.users["carol"].oper = true
	s.users["alice"].host = "host"
	s.users["alice"].real = "alice"
	s.chans["#c"] = &c14Chan{name: "#c", status: "@", joined: true, named: true, topic: "first", who: "bob!b@h", at: 800000000, members: map[string]string{"alice": "", "bob": s.sortModes("ov"), "carol": "o"}, modes: map[byte]string{'n': "", 't': ""}}
	s.chans["#d"] = &c14Chan{name: "#D", status: "*", members: map[string]string{"bob": "v"}, modes: map[byte]string{'i': ""}}
	s.names(s.chans["#c"])
	return s
}

// enabled lists the events of a group.
func (s *c14State) enabled(group string) []string {
	var l []string
	c, d := s.chans["#c"], s.chans["#d"]
	in := func(ch *c14Chan, n string) bool { _, ok := ch.members[n]; return ok }
	_, bob := s.users["bob"]
	dave := s.users["dave"] != nil
	add := func(ok bool, e ...string) {
		if ok {
			l = append(l, e...)
		}
	}
	members := group == "members" || group == "all"
	state := group == "state" || group == "all"
	info := group == "info" || group == "all"
	add(s.extra < 1, "attach")
	add(true, "drop")
	if members || info {
		for _, n := range []string{"bob", "dave", "carol"} {
			if s.users[n] == nil || n == "carol" && group != "members" {
				continue
			}
			add(c.joined && !in(c, n), "join "+n+" #c")
			add(c.joined && in(c, n), "part "+n+" #C")
			add(in(c, n) || in(d, n) && d.joined, "quit "+n)
			add(c.joined && d.joined && !in(c, n) && !in(d, n), "joins "+n)
			add(c.joined && d.joined && in(c, n) && in(d, n), "parts "+n)
		}
		add(c.joined && in(c, "bob"), "kick BOB #c")
		if members {
			add(c.joined && in(c, "carol"), "kick carol #c")
			add(d.joined && !in(d, "carol"), "join carol #d")
			add(d.joined && in(d, "carol"), "part carol #d", "kick Carol #d", "quit carol")
			add(d.joined && in(d, "bob"), "part bob #d")
		}
		add(bob && !dave && (c.joined && in(c, "bob") || d.joined && in(d, "bob")), "nick bob dave")
		add(dave && !bob && (c.joined && in(c, "dave") || d.joined && in(d, "dave")), "nick dave bob")
		add(c.joined, "selfpart #C", "selfkick #c")
		add(!c.joined, "rejoin")
		add(!d.joined, "selfjoin")
		add(d.joined && !d.named, "names")
		add(d.joined, "selfpart #d")
	}
	if members {
		add(bob && c.joined && in(c, "bob") && s.users["bob"].nick == "bob", "nick bob BOB")
		add(s.self == "alice", "nick alice al2")
		add(c.joined && in(c, "bob"), "mode #C +o bob", "mode #c -o bob", "mode #c +v-o BOB bob", "mode #c -v bob", "mode #c +ob-v bob x!*@* bob")
		add(c.joined, "mode #c +o "+s.self)
		add(d.joined && d.named && bob && in(d, "bob"), "mode #d +o bob")
		if strings.Contains(s.ranks, "h") {
			add(c.joined && in(c, "bob"), "mode #c +h bob", "mode #c +q bob", "mode #c -h bob")
		}
	}
	if state {
		add(c.joined && bob && in(c, "bob"), "topic now hello #c", "topic past hello #C", "topic now #c")
		add(c.joined, "mode #c +k key", "mode #c +l 5", "mode #c -l", "mode #C +is", "mode #c -i+t", "mode #c -n", "mode #c +bl x!*@* 7", "repmode")
		_, k := c.modes['k']
		add(c.joined && k, "mode #c -k *", "mode #c -kl *")
		add(c.joined, "selfpart #c")
		add(!c.joined, "rejoin")
		add(true, "umode +i", "umode -i", "umode +wi", "221 +x", "221 +")
	}
	if info {
		for _, n := range []string{"bob", "dave"} {
			if s.users[n] == nil || !(c.joined && in(c, n) || d.joined && d.named && in(d, n)) {
				continue
			}
			add(c.joined, "selfaway")
			add(true, "who", "whox", "chghost "+n+" nu nh", "account "+n+" acct", "account "+n+" *", "setname "+n+" newreal")
			add(!s.users[n].away, "away "+n)
			add(s.users[n].away, "back "+n)
		}
	}
	return c12Uniq(l)
}

type c14World struct {
	c          *kit.Ctx
	w          *kit.World
	s          *kit.UpServer
	st         *c14State
	ever, bare *kit.Client
	more       []*kit.Client
	nwho       int
	dropped    bool
}

var c14Caps = []string{"multi-prefix", "server-time", "message-tags", "away-notify", "chghost", "setname", "account-notify", "extended-join"}

func (s *c14State) caps() []string {
	if s.multi {
		return c14Caps
	}
	return c14Caps[1:]
}

func c14New(c *kit.Ctx, w *kit.World, st *c14State) *c14World {
	x := &c14World{c: c, w: w, st: st}
	u := w.AddUser("alice", nil)
	rec, s := w.AddNetwork(u, "n1", func(n *database.Network) { n.AutoAway = true })
	w.AddChannel(rec, "#c", nil)
	x.s = s
	s.Caps = []string{"server-time", "message-tags", "away-notify", "chghost", "setname", "account-notify", "extended-join", "labeled-response", "batch"}
	if st.multi {
		s.Caps = append(s.Caps, "multi-prefix")
	}
	s.ISupport = []string{"CASEMAPPING=ascii", "soju.im/SAFERATE", "CHANTYPES=#", "PREFIX=(" + st.ranks + ")" + st.pre, "CHANMODES=b,k,l,imnpst", "WHOX"}
	if st.neg {
		s.ISupport = append(s.ISupport[:3:3], "PREFIX=(ab)!.", "CHANMODES=n,,,k", "WHOX", "-PREFIX", "-CHANMODES")
	}
	s.Hook = func(uc *kit.UpConn, m *ircMessage) bool {
		tag := ""
		if l, ok := m.Tags["label"]; ok {
			tag = "@label=" + l + " "
		}
		switch m.Command {
		case "JOIN":
			for _, l := range append(x.st.joinLines(x.st.chans["#c"]), x.st.namesLines(x.st.chans["#c"])...) {
				uc.Send(l)
			}
			return true
		case "MODE":
			ch := x.st.chans[c14Fold(m.Params[0])]
			if ch != nil && len(m.Params) == 1 {
				uc.Send(x.st.modesLine(ch))
				uc.Send(":n1.test 329 " + x.st.self + " " + ch.name + " 12345")
			}
			return true
		case "WHO":
			x.nwho++
			var nicks []string
			ch := x.st.chans[c14Fold(m.Params[0])]
			if ch != nil {
				nicks = c14Sorted(ch.members)
			} else if x.st.users[c14Fold(m.Params[0])] != nil {
				nicks = []string{c14Fold(m.Params[0])}
			}
			for i, n := range nicks {
				t := x.st.who(n, ch)
				line := ":n1.test 352 " + x.st.self + " " + t.ch + " " + t.user + " " + t.host + " n1.test " + t.nick + " " + t.flags + " :0 " + t.real
				if len(m.Params) > 1 {
					line = ":n1.test 354 " + x.st.self + " 42 " + t.ch + " " + t.user + " " + t.host + " n1.test " + t.nick + " " + t.flags + " " + t.acct + " :" + t.real
				}
				if i == 0 && len(nicks) == 0 {
					line = tag + line
				}
				uc.Send(line)
			}
			uc.Send(":n1.test 315 " + x.st.self + " " + m.Params[0] + " :End")
			return true
		}
		return false
	}
	w.Start()
	x.ever = w.Connect("ever", kit.ConnOpts{User: "alice", Network: "n1", Client: "ever", Caps: x.st.caps()})
	x.bare = w.Connect("bare", kit.ConnOpts{User: "alice", Network: "n1", Client: "bare"})
	return x
}

type c14Who struct{ ch, user, host, nick, flags, acct, real string }

func (s *c14State) who(n string, ch *c14Chan) c14Who {
	u := s.users[n]
	t := c14Who{"*", u.user, u.host, u.nick, "H", "0", u.real}
	if u.away {
		t.flags = "G"
	}
	if u.oper {
		t.flags += "*"
	}
	if u.acct != "" {
		t.acct = u.acct
	}
	if ch != nil {
		t.ch = ch.name
		t.flags += s.prefixes(ch.members[n])
	}
	return t
}

// c14Pic is the picture a client has of the channels.
type c14Pic struct {
	self  string
	chans map[string]*c14PicChan
}

type c14PicChan struct {
	name, topic, who string
	status           string
	at               int64
	members          map[string]string // folded -> nick and prefixes by rank
	modes            map[byte]string
	names            bool
	got              map[string]bool
}

// c14Interpret computes the picture from what the client received.
func c14Interpret(x *c14World, cl *kit.Client, s *c14State) c14Pic {
	p := c14Pic{chans: map[string]*c14PicChan{}}
	cl.Peek()
	for _, m := range cl.All {
		from, own := "", false
		if m.Prefix != nil {
			from = m.Prefix.Name
			own = c14Fold(from) == c14Fold(p.self)
		}
		get := func(i int) *c14PicChan {
			if i < len(m.Params) {
				return p.chans[c14Fold(m.Params[i])]
			}
			return nil
		}
		at := int64(c14Now)
		if t, err := time.Parse("2006-01-02T15:04:05.000Z", string(m.Tags["time"])); err == nil {
			at = t.Unix()
		}
		switch m.Command {
		case "001":
			p.self = m.Params[0]
		case "NICK":
			if own {
				p.self = m.Params[0]
			}
			for _, ch := range p.chans {
				if v, ok := ch.members[c14Fold(from)]; ok {
					delete(ch.members, c14Fold(from))
					ch.members[c14Fold(m.Params[0])] = m.Params[0] + " " + strings.SplitN(v, " ", 2)[1]
				}
			}
		case "JOIN":
			if own {
				p.chans[c14Fold(m.Params[0])] = &c14PicChan{name: m.Params[0], members: map[string]string{}, modes: map[byte]string{}}
			}
			if ch := get(0); ch != nil {
				ch.members[c14Fold(from)] = from + " "
			}
		case "PART":
			if own {
				delete(p.chans, c14Fold(m.Params[0]))
			} else if ch := get(0); ch != nil {
				delete(ch.members, c14Fold(from))
			}
		case "KICK":
			if c14Fold(m.Params[1]) == c14Fold(p.self) {
				delete(p.chans, c14Fold(m.Params[0]))
			} else if ch := get(0); ch != nil {
				delete(ch.members, c14Fold(m.Params[1]))
			}
		case "QUIT":
			for _, ch := range p.chans {
				delete(ch.members, c14Fold(from))
			}
		case "TOPIC":
			if ch := get(0); ch != nil {
				ch.topic, ch.who, ch.at = m.Params[1], m.Prefix.String(), at
			}
		case "332":
			if ch := get(1); ch != nil {
				ch.topic = m.Params[2]
			}
		case "331":
			if ch := get(1); ch != nil {
				ch.topic = ""
			}
		case "333":
			if ch := get(1); ch != nil {
				ch.who = m.Params[2]
				ch.at, _ = strconv.ParseInt(m.Params[3], 10, 64)
			}
		case "353":
			if ch := get(2); ch != nil {
				if !ch.names {
					ch.got = map[string]bool{}
					ch.names = true
				}
				ch.status = m.Params[1]
				for _, n := range strings.Fields(m.Params[3]) {
					pre := ""
					for strings.IndexByte(s.pre, n[0]) >= 0 {
						pre += n[:1]
						n = n[1:]
					}
					x.c.Check(!ch.got[c14Fold(n)], "client %s gets member %s of %s twice", cl.Name, n, ch.name)
					ch.got[c14Fold(n)] = true
					ch.members[c14Fold(n)] = n + " " + pre
				}
			}
		case "366":
			if ch := get(1); ch != nil {
				ch.names = false
			}
		case "MODE":
			ch := get(0)
			if ch == nil {
				continue
			}
			args := m.Params[2:]
			sign := byte('+')
			for i := 0; i < len(m.Params[1]); i++ {
				c := m.Params[1][i]
				if c == '+' || c == '-' {
					sign = c
					continue
				}
				if strings.IndexByte(s.ranks, c) >= 0 {
					k := c14Fold(args[0])
					args = args[1:]
					if v, ok := ch.members[k]; ok {
						f := strings.SplitN(v, " ", 2)
						sym := string(s.pre[strings.IndexByte(s.ranks, c)])
						set := strings.ReplaceAll(f[1], sym, "")
						if sign == '+' {
							set += sym
						}
						sorted := ""
						for j := 0; j < len(s.pre); j++ {
							if strings.IndexByte(set, s.pre[j]) >= 0 {
								sorted += s.pre[j : j+1]
							}
						}
						ch.members[k] = f[0] + " " + sorted
					}
				} else if c == 'b' || c == 'k' || c == 'l' && sign == '+' {
					args = args[1:]
				}
			}
		}
	}
	return p
}

func (p c14Pic) String(withWho bool) string {
	var sb strings.Builder
	for _, k := range c14Sorted(p.chans) {
		ch := p.chans[k]
		fmt.Fprintf(&sb, "%s topic=%q", ch.name, ch.topic)
		if ch.topic != "" && withWho {
			fmt.Fprintf(&sb, " by %s at %d", ch.who, ch.at)
		}
		sb.WriteString(" status=" + ch.status + " members=")
		for _, n := range c14Sorted(ch.members) {
			fmt.Fprintf(&sb, "[%s]", ch.members[n])
		}
		sb.WriteString("; ")
	}
	return sb.String()
}

// expect is the picture implied by the server.
func (s *c14State) expect(multi bool) c14Pic {
	p := c14Pic{chans: map[string]*c14PicChan{}}
	for k, ch := range s.chans {
		if !ch.joined {
			continue
		}
		pc := &c14PicChan{name: ch.name, status: ch.status, topic: ch.topic, who: ch.who, at: ch.at, members: map[string]string{}}
		for n, m := range ch.members {
			pre := s.prefixes(m)
			if !multi && len(pre) > 1 {
				pre = pre[:1]
			}
			pc.members[n] = s.users[n].nick + " " + pre
		}
		if !ch.named {
			pc.members = map[string]string{c14Fold(s.self): s.self + " "}
			pc.topic, pc.status = "", ""
		}
		p.chans[k] = pc
	}
	return p
}

// picture is the picture of a client which has been there for a while. Clients
// are not told about channels that are lost with the connection.
func (x *c14World) picture(cl *kit.Client) string {
	p := c14Interpret(x, cl, x.st)
	for k := range p.chans {
		if x.dropped && !x.st.chans[k].joined {
			delete(p.chans, k)
		} else if ch := x.st.chans[k]; ch != nil && ch.joined && !ch.named {
			// those who joined meanwhile are known already
			self := c14Fold(x.st.self)
			p.chans[k].members = map[string]string{self: p.chans[k].members[self]}
			p.chans[k].status = ""
		}
	}
	return p.String(true)
}

// check compares what late clients are told with the server's state, and with
// the client which was always there.
func (x *c14World) check() {
	c, s := x.c, x.st
	for _, multi := range []bool{true, false} {
		name := "late-bare"
		o := kit.ConnOpts{User: "alice", Network: "n1", Client: name}
		if multi {
			name = "late"
			o = kit.ConnOpts{User: "alice", Network: "n1", Client: name, Caps: s.caps()}
		}
		wide := multi // all the prefixes are told
		if !s.multi {
			multi = false
		}
		cl := x.w.Connect(name, o)
		got, want := c14Interpret(x, cl, s).String(true), s.expect(multi).String(true)
		c.Check(got == want, "client %s sees %s\nwhile the server says %s", name, got, want)
		if wide {
			want := s.expect(true).String(true)
			e := x.picture(x.ever)
			c.Check(e == want, "the client that was always there sees %s\nwhile the server says %s", e, want)
			for _, m := range x.more {
				if !s.multi {
					break // it does not know lower prefixes
				}
				e := x.picture(m)
				c.Check(e == want, "the client that attached earlier sees %s\nwhile the server says %s", e, want)
			}
		}
		// the user's own modes
		umode := ""
		for _, m := range cl.All {
			if m.Command == "221" {
				umode = m.Params[1]
			}
		}
		c.Check(kit.EqSet(strings.Split(umode, ""), strings.Split("+"+s.umode, "")), "client %s is told the user modes are %q, want %q", name, umode, s.umode)
		umode = ""
		cl.Take()
		for _, m := range cl.Do("MODE " + s.self) {
			if m.Command == "221" {
				umode += m.Params[1]
			}
		}
		c.Check(kit.EqSet(strings.Split(umode, ""), strings.Split("+"+s.umode, "")), "client %s asks for the user modes and gets %q, want %q", name, umode, s.umode)
		// the same by asking
		for _, k := range c14Sorted(s.chans) {
			ch := s.chans[k]
			if !ch.joined || !ch.named {
				continue
			}
			for _, q := range []*kit.Client{cl, x.bare} {
				if q == x.bare && wide {
					continue
				}
				x.query(q, k, ch, multi)
			}
		}
		cl.Quit()
	}
}

func (x *c14World) query(cl *kit.Client, k string, ch *c14Chan, multi bool) {
	c, s := x.c, x.st
	var topic, modes string
	var names []string
	cl.Take()
	for _, q := range []string{"TOPIC " + k, "MODE " + strings.ToUpper(k), "NAMES " + k} {
		cl.Send(q)
		x.w.Settle()
	}
	for _, m := range cl.Take() {
		switch m.Command {
		case "331":
			topic += "none"
		case "332":
			topic += m.Params[2]
		case "333":
			topic += " " + m.Params[2] + " " + m.Params[3]
		case "324":
			set := map[byte]string{}
			args := m.Params[3:]
			for _, b := range []byte(strings.TrimPrefix(m.Params[2], "+")) {
				set[b] = ""
				if b == 'k' || b == 'l' {
					if len(args) > 0 {
						set[b], args = args[0], args[1:]
					}
				}
			}
			modes += c14Modes(set)
		case "353":
			names = append(names, strings.Fields(m.Params[3])...)
		}
	}
	want := "none"
	if ch.topic != "" {
		want = fmt.Sprintf("%s %s %d", ch.topic, ch.who, ch.at)
	}
	c.Check(topic == want, "client %s asks for the topic of %s and gets %q, want %q", cl.Name, k, topic, want)
	c.Check(modes == c14Modes(ch.modes), "client %s asks for the modes of %s and gets %q, want %q", cl.Name, k, modes, c14Modes(ch.modes))
	var wn []string
	for n, m := range ch.members {
		pre := s.prefixes(m)
		if !multi && len(pre) > 1 {
			pre = pre[:1]
		}
		wn = append(wn, pre+s.users[n].nick)
	}
	c.Check(kit.EqSet(names, wn), "client %s asks for the names of %s and gets %s, want %s", cl.Name, k, kit.Q(names), kit.Q(wn))
	if multi {
		x.who(cl, k, ch)
		x.who(cl, strings.ToUpper(k), ch)
	}
}

// who checks the answers to WHO, from the cache of the bouncer or not.
func (x *c14World) who(cl *kit.Client, k string, ch *c14Chan) {
	c, s := x.c, x.st
	for _, q := range []string{"", " %tcuhsnfar,42"} {
		var got, want []string
		ends := 0
		cl.Take()
		for _, m := range cl.Do("WHO " + k + q) {
			switch m.Command {
			case "315":
				ends++
				c.Check(m.Params[1] == k, "client %s asks for WHO %s and is told the end of %s", cl.Name, k, m.Params[1])
			case "352":
				got = append(got, fmt.Sprint(c14Who{m.Params[1], m.Params[2], m.Params[3], m.Params[5], m.Params[6], "", strings.TrimPrefix(m.Params[7], "0 ")}))
			case "354":
				if len(m.Params) == 10 {
					got = append(got, fmt.Sprint(c14Who{m.Params[2], m.Params[3], m.Params[4], m.Params[6], m.Params[7], m.Params[8], m.Params[9]}))
				} else {
					got = append(got, m.String())
				}
			}
		}
		c.Check(ends == 1, "client %s asks for WHO %s and is told %d times it is over", cl.Name, k, ends)
		for n := range ch.members {
			t := s.who(n, ch)
			if q == "" {
				t.acct = ""
			}
			if t.ch != k {
				t.ch = k
			}
			want = append(want, fmt.Sprint(t))
		}
		for i := range got {
			got[i] = strings.Replace(got[i], "{"+ch.name+" ", "{"+k+" ", 1)
		}
		c.Check(kit.EqSet(got, want), "WHO %s%s tells client %s %s, want %s", k, q, cl.Name, kit.Q(kit.Sorted(got)), kit.Q(kit.Sorted(want)))
	}
}

func (x *c14World) exec(e string) bool {
	x.c.Step(e)
	n, lines := x.st.apply(e)
	uc := x.s.Live()
	switch e {
	case "attach":
		cl := x.w.Connect("more", kit.ConnOpts{User: "alice", Network: "n1", Client: fmt.Sprintf("more%d", len(x.more)), Caps: x.st.caps()})
		x.more = append(x.more, cl)
	case "who":
		x.ever.Do("WHO #c")
	case "whox":
		x.ever.Do("WHO #c %tcuhsnfar,42")
	case "selfaway":
		// all the clients are away for a moment
		me := n.users[c14Fold(n.self)]
		for _, a := range []string{"AWAY :busy", "AWAY"} {
			for _, cl := range append([]*kit.Client{x.ever, x.bare}, x.more...) {
				cl.Send(a)
			}
			x.w.Settle()
			me.away = a != "AWAY"
			x.st = n
			x.who(x.ever, "#c", n.chans["#c"])
		}
	case "drop":
		x.st = n
		x.s.Drop()
		if !x.c.Check(x.s.Live() != nil, "no reconnection") {
			return false
		}
		x.dropped = true
	}
	x.st = n
	for _, l := range lines {
		uc.Send(l)
	}
	if strings.HasPrefix(e, "nick "+uc.Nick+" ") {
		uc.Nick = n.self
	}
	x.w.Settle()
	return !x.c.Bad()
}

func TestC14(t *testing.T) {
	r := kit.Start(t, "C14")
	c14LateModes(r)
	for _, v := range []struct {
		name  string
		init  func() *c14State
		group string
		q, th int
	}{
		{"all", func() *c14State { return c14Init(true, "ov", "@+") }, "all", 3, 4},
		{"members", func() *c14State { return c14Init(true, "ov", "@+") }, "members", 4, 6},
		{"single", func() *c14State { return c14Init(false, "ov", "@+") }, "members", 4, 5},
		{"ranks", func() *c14State { return c14Init(true, "qohv", "~@%+") }, "members", 4, 5},
		{"state", func() *c14State { return c14Init(true, "ov", "@+") }, "state", 5, 7},
		{"info", func() *c14State { return c14Init(true, "ov", "@+") }, "info", 4, 5},
		{"default", func() *c14State { s := c14Init(true, "qaohv", "~&@%+"); s.neg = true; return s }, "all", 2, 3},
	} {
		depth := r.Pick(v.q, v.th)
		r.Bound("C14 %s: every server state within %d events, every event from each", v.name, depth)
		kit.Graph(r, v.name, v.init(), (*c14State).key, func(s *c14State) []string { return s.enabled(v.group) }, func(s *c14State, e string) *c14State { n, _ := s.apply(e); return n }, depth,
			func(key string, seq []string) {
				r.World(key, func(c *kit.Ctx, w *kit.World) {
					x := c14New(c, w, v.init())
					for _, e := range seq {
						if !x.exec(e) {
							return
						}
					}
					x.check()
				})
			})
		if n := r.Pick(2, 3); v.name != "all" && v.name != "default" {
			r.Tree(v.name+"-tree", n, func(seq []string) []string {
				s := v.init()
				for _, e := range seq {
					s, _ = s.apply(e)
				}
				return s.enabled(v.group)
			}, func(key string, seq []string) {
				r.World(key, func(c *kit.Ctx, w *kit.World) {
					x := c14New(c, w, v.init())
					for _, e := range seq {
						if !x.exec(e) {
							return
						}
					}
					x.check()
				})
			})
		}
	}
}
