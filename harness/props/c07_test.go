package props

import (
	"context"
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"testing"

	"codeberg.org/emersion/soju/database"

	"sojuverif/kit"
)

// C07: service commands respect privileges and never touch another user.
//
// The reference is a small interpreter of the service commands on plain
// records; the stored records after every command have to equal it.

type c07Net struct {
	Label string // identity for bound clients
	N     database.Network
	Chans map[string]database.Channel
}

type c07User struct {
	U    database.User
	Nets []*c07Net
}

type c07State map[string]*c07User

func (s c07State) copy() c07State {
	n := c07State{}
	for k, u := range s {
		nu := &c07User{U: u.U}
		for _, net := range u.Nets {
			nn := &c07Net{Label: net.Label, N: net.N, Chans: map[string]database.Channel{}}
			for c, ch := range net.Chans {
				nn.Chans[c] = ch
			}
			nu.Nets = append(nu.Nets, nn)
		}
		n[k] = nu
	}
	return n
}

func (s c07State) render(name string) string {
	u := s[name]
	if u == nil {
		return "(none)"
	}
	var b strings.Builder
	j, _ := json.Marshal(u.U)
	b.Write(j)
	nets := append([]*c07Net(nil), u.Nets...)
	sort.Slice(nets, func(i, j int) bool { return nets[i].N.Name < nets[j].N.Name })
	for _, n := range nets {
		j, _ := json.Marshal(n.N)
		b.WriteString("\n net ")
		b.Write(j)
		for _, c := range kit.Keys(n.Chans) {
			j, _ := json.Marshal(n.Chans[c])
			b.WriteString("\n  chan ")
			b.Write(j)
		}
	}
	return b.String()
}

func (s c07State) names(o c07State) []string {
	m := map[string]bool{}
	for k := range s {
		m[k] = true
	}
	for k := range o {
		m[k] = true
	}
	return kit.Keys(m)
}

var c07PwCache = map[string]string{}

// c07Password replaces a hash with the plain text it verifies, among the ones used here.
func c07Password(u *database.User) string {
	if !strings.HasPrefix(u.Password, "$2") {
		return u.Password
	}
	if p, ok := c07PwCache[u.Password]; ok {
		return p
	}
	for _, p := range []string{"pw1", "pw2"} {
		r := *u
		if _, err := r.CheckPassword(p); err == nil {
			c07PwCache[u.Password] = "hash of " + p
			return "hash of " + p
		}
	}
	return "hash of something else"
}

func c07Load(db database.Database) c07State {
	ctx := context.Background()
	s := c07State{}
	users, err := db.ListUsers(ctx)
	if err != nil {
		panic(err)
	}
	for i := range users {
		u := users[i]
		cu := &c07User{U: u}
		nets, err := db.ListNetworks(ctx, u.ID)
		if err != nil {
			panic(err)
		}
		for _, n := range nets {
			cn := &c07Net{Label: n.Name, N: n, Chans: map[string]database.Channel{}}
			chans, err := db.ListChannels(ctx, n.ID)
			if err != nil {
				panic(err)
			}
			for _, ch := range chans {
				ch.ID = 0
				ch.DetachedInternalMsgID = ""
				cn.Chans[ch.Name] = ch
			}
			cn.N.ID = 0
			if len(cn.N.SASL.External.CertBlob) > 0 {
				cn.N.SASL.External.CertBlob = []byte("cert")
			} else {
				cn.N.SASL.External.CertBlob = nil
			}
			if len(cn.N.SASL.External.PrivKeyBlob) > 0 {
				cn.N.SASL.External.PrivKeyBlob = []byte("key")
			} else {
				cn.N.SASL.External.PrivKeyBlob = nil
			}
			if len(cn.N.ConnectCommands) == 0 {
				cn.N.ConnectCommands = nil
			}
			cu.Nets = append(cu.Nets, cn)
		}
		cu.U.ID = 0
		cu.U.Password = c07Password(&u)
		cu.U.DownstreamInteractedAt = cu.U.DownstreamInteractedAt.UTC().Truncate(0)
		cu.U.DownstreamInteractedAt = database.User{}.DownstreamInteractedAt
		s[u.Username] = cu
	}
	return s
}

// c07Caller is who runs a command, and where.
type c07Caller struct {
	user  string // "" on the administration socket
	bound string // label of the network the client is bound to
	admin bool
}

// c07Res is what the reference says about a command.
type c07Res struct {
	ok      bool
	touched []string // users on whose behalf something may be sent
	closed  []string // users whose clients are disconnected
	secret  bool     // the reply may show other users' data
	deleted string
	all     bool     // broadcast
	show    []string // what the reply shows
}

type c07Fn func(s c07State, c c07Caller) c07Res

func c07Err(c07State, c07Caller) c07Res { return c07Res{} }

// c07Own wraps a command that needs a user and touches only that user.
func c07Own(f func(s c07State, u *c07User, c c07Caller) bool) c07Fn {
	return func(s c07State, c c07Caller) c07Res {
		if c.user == "" || s[c.user] == nil {
			return c07Res{}
		}
		return c07Res{ok: f(s, s[c.user], c), touched: []string{c.user}}
	}
}

func c07Show(f func(s c07State, u *c07User, c c07Caller) (bool, []string)) c07Fn {
	return func(s c07State, c c07Caller) c07Res {
		if c.user == "" || s[c.user] == nil {
			return c07Res{}
		}
		ok, show := f(s, s[c.user], c)
		return c07Res{ok: ok, touched: []string{c.user}, show: show}
	}
}

func (u *c07User) find(c c07Caller, name string) *c07Net {
	for _, n := range u.Nets {
		if name == "" && c.bound != "" && n.Label == c.bound {
			return n
		}
		if name != "" && n.N.Name == name {
			return n
		}
	}
	return nil
}

func (u *c07User) limitReached() bool {
	if u.U.MaxNetworks < 0 {
		return false
	}
	k := 0
	for _, n := range u.Nets {
		if n.N.Enabled {
			k++
		}
	}
	return k >= u.U.MaxNetworks
}

func c07CheckNet(u *c07User, self *c07Net, n *database.Network) bool {
	if strings.HasPrefix(n.Addr, "unix:") && !u.U.Admin {
		return false
	}
	for _, o := range u.Nets {
		if o != self && o.N.Name == n.Name {
			return false
		}
	}
	return true
}

func c07NetCreate(ignore bool, f func(n *database.Network)) c07Fn {
	return c07Own(func(s c07State, u *c07User, c c07Caller) bool {
		if ignore && !c.admin {
			return false
		}
		n := database.NewNetwork("irc+insecure://new.test")
		n.Name = "new"
		if f != nil {
			f(n)
		}
		if n.Enabled && !ignore && u.limitReached() {
			return false
		}
		if !c07CheckNet(u, nil, n) {
			return false
		}
		u.Nets = append(u.Nets, &c07Net{Label: "created", N: *n, Chans: map[string]database.Channel{}})
		return true
	})
}

func c07NetUpdate(name string, ignore bool, f func(n *database.Network)) c07Fn {
	return c07Own(func(s c07State, u *c07User, c c07Caller) bool {
		net := u.find(c, name)
		if net == nil {
			return false
		}
		if ignore && !c.admin {
			return false
		}
		n := net.N
		was := n.Enabled
		f(&n)
		if n.Enabled && !ignore && !was && u.limitReached() {
			return false
		}
		if n.Nick == u.U.Nick {
			n.Nick = ""
		}
		if n.Realname == u.U.Realname {
			n.Realname = ""
		}
		if !c07CheckNet(u, net, &n) {
			return false
		}
		net.N = n
		return true
	})
}

func c07NetDo(name string, f func(n *database.Network)) c07Fn {
	return c07Own(func(s c07State, u *c07User, c c07Caller) bool {
		net := u.find(c, name)
		if net == nil {
			return false
		}
		f(&net.N)
		return true
	})
}

func c07NetDelete(name string) c07Fn {
	return c07Own(func(s c07State, u *c07User, c c07Caller) bool {
		net := u.find(c, name)
		if net == nil {
			return false
		}
		for i, n := range u.Nets {
			if n == net {
				u.Nets = append(u.Nets[:i:i], u.Nets[i+1:]...)
				break
			}
		}
		return true
	})
}

// c07Chan resolves a channel argument.
func c07Chan(u *c07User, c c07Caller, arg string) (*c07Net, string) {
	if c.bound != "" {
		return u.find(c, ""), arg
	}
	name, net, ok := strings.Cut(arg, "/")
	if !ok {
		return nil, ""
	}
	return u.find(c, net), name
}

func c07ChanCreate(arg string, f func(ch *database.Channel)) c07Fn {
	return c07Own(func(s c07State, u *c07User, c c07Caller) bool {
		net, name := c07Chan(u, c, arg)
		if net == nil || name == "" || strings.ContainsAny(name, " ,") {
			return false
		}
		if net.N.Enabled && u.U.Enabled && !strings.HasPrefix(name, "#") {
			return false
		}
		if _, ok := net.Chans[name]; ok {
			return false
		}
		ch := database.Channel{Name: name}
		if f != nil {
			f(&ch)
		}
		net.Chans[name] = ch
		return true
	})
}

func c07ChanUpdate(arg string, f func(ch *database.Channel)) c07Fn {
	return c07Own(func(s c07State, u *c07User, c c07Caller) bool {
		net, name := c07Chan(u, c, arg)
		if net == nil {
			return false
		}
		ch, ok := net.Chans[name]
		if !ok {
			return false
		}
		f(&ch)
		net.Chans[name] = ch
		return true
	})
}

func c07ChanDelete(arg string) c07Fn {
	return c07Own(func(s c07State, u *c07User, c c07Caller) bool {
		net, name := c07Chan(u, c, arg)
		if net == nil {
			return false
		}
		if _, ok := net.Chans[name]; !ok {
			return false
		}
		delete(net.Chans, name)
		return true
	})
}

func c07Admin(f c07Fn) c07Fn {
	return func(s c07State, c c07Caller) c07Res {
		if !c.admin {
			return c07Res{}
		}
		r := f(s, c)
		r.secret = true
		return r
	}
}

type c07UserUpd struct {
	password       string
	disable        bool
	nick, realname string
	admin, enabled *bool
	max            *int
}

func c07UserUpdate(name string, upd c07UserUpd) c07Fn {
	return func(s c07State, c c07Caller) c07Res {
		if name == "" && c.user == "" {
			return c07Res{}
		}
		other := name != "" && name != c.user
		target := name
		if target == "" {
			target = c.user
		}
		if other && !c.admin {
			return c07Res{}
		}
		u := s[target]
		if u == nil {
			return c07Res{}
		}
		if other && (upd.nick != "" || upd.realname != "") {
			return c07Res{}
		}
		if !other && (upd.admin != nil || upd.enabled != nil || (upd.max != nil && !c.admin)) {
			return c07Res{}
		}
		if upd.password != "" && upd.disable {
			return c07Res{}
		}
		res := c07Res{ok: true, touched: []string{target}}
		if upd.password != "" {
			u.U.Password = "hash of " + upd.password
		}
		if upd.disable {
			u.U.Password = ""
		}
		if (upd.password != "" || upd.disable) && other {
			res.closed = []string{target}
		}
		if upd.nick != "" {
			u.U.Nick = upd.nick
		}
		if upd.realname != "" {
			u.U.Realname = upd.realname
		}
		if upd.admin != nil {
			u.U.Admin = *upd.admin
		}
		if upd.enabled != nil {
			u.U.Enabled = *upd.enabled
			if !*upd.enabled {
				res.closed = []string{target}
			}
		}
		if upd.max != nil {
			u.U.MaxNetworks = *upd.max
		}
		return res
	}
}

func c07Token(name string) string {
	h := sha1.Sum([]byte(name))
	return fmt.Sprintf("%x", h[:3])
}

func c07UserDelete(name, token string) c07Fn {
	return func(s c07State, c c07Caller) c07Res {
		if !c.admin && name != c.user {
			return c07Res{}
		}
		if s[name] == nil {
			return c07Res{}
		}
		if token == "" {
			return c07Res{ok: true, show: []string{c07Token(name)}}
		}
		if token != c07Token(name) {
			return c07Res{}
		}
		delete(s, name)
		return c07Res{ok: true, touched: []string{name}, closed: []string{name}, deleted: name}
	}
}

func c07UserCreate(f func(u *database.User)) c07Fn {
	return c07Admin(func(s c07State, c c07Caller) c07Res {
		u := database.NewUser("carol")
		u.Password = "hash of pw1"
		f(u)
		if s[u.Username] != nil {
			return c07Res{}
		}
		s[u.Username] = &c07User{U: *u}
		return c07Res{ok: true}
	})
}

type c07Cmd struct {
	text string
	fn   c07Fn
}

func c07Run(user string, cmd c07Cmd) c07Cmd {
	return c07Cmd{"user run " + user + " " + cmd.text, c07Admin(func(s c07State, c c07Caller) c07Res {
		if c.user == user {
			return cmd.fn(s, c)
		}
		if s[user] == nil {
			return c07Res{}
		}
		return cmd.fn(s, c07Caller{user: user, admin: true})
	})}
}

func c07Commands() []c07Cmd {
	T, F := true, false
	one, nine := 1, 9
	fp := strings.Repeat("ab", 32)
	names := func(s c07State, u *c07User, c c07Caller) (bool, []string) {
		var l []string
		for _, n := range u.Nets {
			l = append(l, n.N.Name)
		}
		return true, l
	}
	saslStatus := func(name string) c07Fn {
		return c07Show(func(s c07State, u *c07User, c c07Caller) (bool, []string) {
			n := u.find(c, name)
			if n == nil {
				return false, nil
			}
			if n.N.SASL.Mechanism == "PLAIN" {
				return true, []string{n.N.SASL.Plain.Username}
			}
			return true, nil
		})
	}
	certShow := func(name string) c07Fn {
		return c07Own(func(s c07State, u *c07User, c c07Caller) bool {
			n := u.find(c, name)
			return n != nil && n.N.SASL.Mechanism == "EXTERNAL"
		})
	}
	certGen := func(name string) c07Fn {
		return c07NetDo(name, func(n *database.Network) {
			n.SASL = database.SASL{Mechanism: "EXTERNAL"}
			n.SASL.External.CertBlob = []byte("cert")
			n.SASL.External.PrivKeyBlob = []byte("key")
		})
	}
	setPlain := func(name string) c07Fn {
		return c07NetDo(name, func(n *database.Network) {
			n.SASL = database.SASL{Mechanism: "PLAIN"}
			n.SASL.Plain.Username = "acct"
			n.SASL.Plain.Password = "sekrit"
		})
	}
	saslReset := func(name string) c07Fn {
		return c07NetDo(name, func(n *database.Network) { n.SASL = database.SASL{} })
	}
	chanStatus := func(name string, flag bool) c07Fn {
		return c07Show(func(s c07State, u *c07User, c c07Caller) (bool, []string) {
			var l []string
			if name == "" && c.bound == "" {
				for _, n := range u.Nets {
					for ch := range n.Chans {
						l = append(l, ch)
					}
				}
				return true, l
			}
			n := u.find(c, name)
			if n == nil {
				return false, nil
			}
			for ch := range n.Chans {
				l = append(l, ch)
			}
			return true, l
		})
	}
	quote := func(name string) c07Fn {
		return c07Own(func(s c07State, u *c07User, c c07Caller) bool {
			n := u.find(c, name)
			return n != nil && n.N.Enabled && u.U.Enabled
		})
	}
	ok := func(s c07State, c c07Caller) c07Res { return c07Res{ok: true} }
	adminOK := c07Admin(ok)
	help := func(s c07State, c c07Caller) c07Res { return c07Res{ok: true} }
	l := []c07Cmd{
		{"help", help},
		{"help network", help},
		{"help user run", help},
		{"help nosuch", c07Err},
		{"", c07Err},
		{"nosuch", c07Err},
		{`network "status`, c07Err},

		{"network status", c07Show(names)},
		{"network status net", c07Err},
		{"network create -addr irc+insecure://new.test -name new", c07NetCreate(false, nil)},
		{"network create -addr irc+insecure://new.test -name new -ignore-limit", c07NetCreate(true, nil)},
		{"network create -addr irc+insecure://new.test -name new -ignore-limit=true", c07NetCreate(true, nil)},
		{`network create -addr irc+insecure://new.test -name new -nick n1 -username u1 -pass p1 -realname "r 1" -auto-away false -enabled false -certfp ` + fp + ` -connect-command "PRIVMSG x :y"`, c07NetCreate(false, func(n *database.Network) {
			n.Nick, n.Username, n.Pass, n.Realname = "n1", "u1", "p1", "r 1"
			n.AutoAway, n.Enabled = false, false
			n.CertFP = "sha-256:" + fp
			n.ConnectCommands = []string{"PRIVMSG x :y"}
		})},
		{"network create", c07Err},
		{"network create -addr foo://new.test", c07Err},
		{"network create -addr irc+insecure://new.test -name *", c07Err},
		{"network create -addr irc+insecure://new.test -name net", c07Err},
		{"network create -addr irc+insecure://u:p@new.test -name new", c07Err},
		{"network create -addr irc+insecure://new.test -name new extra", c07Err},
		{"network create -addr irc+insecure://new.test -name new -certfp zz", c07Err},
		{"network create -addr irc+insecure://new.test -name new -bogus 1", c07Err},
		{"network create -addr unix:///nonexistent/sock -name new", c07NetCreate(false, func(n *database.Network) { n.Addr = "unix:///nonexistent/sock" })},

		{"network update -nick n2", c07NetUpdate("", false, func(n *database.Network) { n.Nick = "n2" })},
		{"network update net -nick n2", c07NetUpdate("net", false, func(n *database.Network) { n.Nick = "n2" })},
		{"network update net -username u2 -pass p2", c07NetUpdate("net", false, func(n *database.Network) { n.Username, n.Pass = "u2", "p2" })},
		{`network update net -connect-command "MODE x +i" -auto-away true`, c07NetUpdate("net", false, func(n *database.Network) { n.ConnectCommands, n.AutoAway = []string{"MODE x +i"}, true })},
		{"network update net -name renamed", c07NetUpdate("net", false, func(n *database.Network) { n.Name = "renamed" })},
		{"network update net -enabled false", c07NetUpdate("net", false, func(n *database.Network) { n.Enabled = false })},
		{"network update net2 -enabled true", c07NetUpdate("net2", false, func(n *database.Network) { n.Enabled = true })},
		{"network update net2 -enabled true -ignore-limit", c07NetUpdate("net2", true, func(n *database.Network) { n.Enabled = true })},
		{"network update net -ignore-limit", c07NetUpdate("net", true, func(n *database.Network) {})},
		{"network update net -nick n3 -name net2", c07NetUpdate("net", false, func(n *database.Network) { n.Nick, n.Name = "n3", "net2" })},
		{"network update net -nick n3 -certfp zz", c07Err},
		{`network update net -nick n3 -connect-command "PRIVMSG x :y" -connect-command ""`, c07Err},
		{"network update net -nick n3 -addr foo://x", c07Err},
		{"network update net -nick n3 -enabled perhaps", c07Err},
		{"network update net -nick n3 extra", c07Err},
		{"network update net -addr unix:///nonexistent/sock", c07NetUpdate("net", false, func(n *database.Network) { n.Addr = "unix:///nonexistent/sock" })},
		{"network update bobnet -nick hacked", c07NetUpdate("bobnet", false, func(n *database.Network) { n.Nick = "hacked" })},
		{"network update nosuch -nick x", c07Err},
		{"network delete net", c07NetDelete("net")},
		{"network delete net2", c07NetDelete("net2")},
		{"network delete bobnet", c07NetDelete("bobnet")},
		{"network delete", c07Err},
		{"network delete net extra", c07Err},
		{"network delete nosuch", c07Err},
		{`network quote net "PRIVMSG x :quoted"`, quote("net")},
		{`network quote "PRIVMSG x :quoted"`, quote("")},
		{`network quote bobnet "PRIVMSG x :quoted"`, quote("bobnet")},
		{`network quote net2 "PRIVMSG x :quoted"`, quote("net2")},
		{`network quote net ""`, c07Err},
		{"network quote", c07Err},
		{"network quote a b c", c07Err},

		{"certfp generate -key-type ed25519", certGen("")},
		{"certfp generate -key-type ed25519 -network net2", certGen("net2")},
		{"certfp generate -key-type ed25519 -network bobnet", certGen("bobnet")},
		{"certfp generate -key-type bogus -network net", c07Err},
		{"certfp generate -bits 0 -network net", c07Err},
		{"certfp generate extra", c07Err},
		{"certfp fingerprint", certShow("")},
		{"certfp fingerprint -network net", certShow("net")},
		{"certfp fingerprint -network bobnet", certShow("bobnet")},
		{"sasl status", saslStatus("")},
		{"sasl status -network net", saslStatus("net")},
		{"sasl status -network bobnet", saslStatus("bobnet")},
		{"sasl set-plain acct sekrit", setPlain("")},
		{"sasl set-plain -network net acct sekrit", setPlain("net")},
		{"sasl set-plain -network bobnet acct sekrit", setPlain("bobnet")},
		{"sasl set-plain -network net acct", c07Err},
		{"sasl reset", saslReset("")},
		{"sasl reset -network net", saslReset("net")},
		{"sasl reset -network bobnet", saslReset("bobnet")},
		{"sasl reset extra", c07Err},

		{"channel status", chanStatus("", false)},
		{"channel status -network net", chanStatus("net", true)},
		{"channel status -network bobnet", chanStatus("bobnet", true)},
		{"channel status extra", c07Err},
		{"channel create #new", c07ChanCreate("#new", nil)},
		{"channel create #new/net", c07ChanCreate("#new/net", nil)},
		{"channel create #new/bobnet", c07ChanCreate("#new/bobnet", nil)},
		{"channel create #new/net -detached true -relay-detached message -reattach-on none -detach-after 5m -detach-on highlight", c07ChanCreate("#new/net", func(ch *database.Channel) {
			ch.Detached, ch.RelayDetached, ch.ReattachOn, ch.DetachOn = true, database.FilterMessage, database.FilterNone, database.FilterHighlight
			ch.DetachAfter = 5 * 60e9
		})},
		{"channel create #a/net", c07ChanCreate("#a/net", nil)},
		{"channel create #new/net -relay-detached bogus", c07Err},
		{"channel create notachan", c07ChanCreate("notachan", nil)},
		{"channel create notachan/net", c07ChanCreate("notachan/net", nil)},
		{`channel create "#x y/net"`, c07ChanCreate("#x y/net", nil)},
		{"channel create", c07Err},
		{"channel update #a -detached true", c07ChanUpdate("#a", func(ch *database.Channel) { ch.Detached = true })},
		{"channel update #a/net -detached true -detach-after 5m", c07ChanUpdate("#a/net", func(ch *database.Channel) { ch.Detached, ch.DetachAfter = true, 5*60e9 })},
		{"channel update #a -relay-detached message -detach-on none", c07ChanUpdate("#a", func(ch *database.Channel) {
			ch.RelayDetached, ch.DetachOn = database.FilterMessage, database.FilterNone
		})},
		{"channel update #a -relay-detached message -detach-on bogus", c07Err},
		{"channel update #a/net -relay-detached message -detach-on bogus", c07Err},
		{"channel update #a -relay-detached message -detach-after -5m", c07Err},
		{"channel update #a/net -reattach-on message -detach-after bogus", c07Err},
		{"channel update #a -relay-detached message extra", c07Err},
		{"channel update #a/bobnet -detached true", c07ChanUpdate("#a/bobnet", func(ch *database.Channel) { ch.Detached = true })},
		{"channel update #nosuch -detached true", c07Err},
		{"channel update", c07Err},
		{"channel delete #a", c07ChanDelete("#a")},
		{"channel delete #a/net", c07ChanDelete("#a/net")},
		{"channel delete #a/bobnet", c07ChanDelete("#a/bobnet")},
		{"channel delete #nosuch/net", c07Err},
		{"channel delete", c07Err},

		{"user status", c07Admin(func(s c07State, c c07Caller) c07Res { return c07Res{ok: true, show: kit.Keys(s)} })},
		{"user status bob", c07Admin(func(s c07State, c c07Caller) c07Res { return c07Res{ok: s["bob"] != nil, show: []string{"bob"}} })},
		{"user status nosuch", c07Err},
		{"user status a b", c07Err},
		{"user create -username carol -password pw1", c07UserCreate(func(u *database.User) {})},
		{"user create -username carol -disable-password -admin -nick cn -realname cr -enabled=false -max-networks 3", c07UserCreate(func(u *database.User) {
			u.Password, u.Admin, u.Nick, u.Realname, u.Enabled, u.MaxNetworks = "", true, "cn", "cr", false, 3
		})},
		{"user create -username bob -disable-password", c07UserCreate(func(u *database.User) { u.Username, u.Password = "bob", "" })},
		{"user create -username alice -disable-password -admin", c07UserCreate(func(u *database.User) { u.Username, u.Password, u.Admin = "alice", "", true })},
		{"user create -username carol", c07Err},
		{"user create -password pw1", c07Err},
		{"user create -username carol -password pw1 -disable-password", c07Err},
		{"user create -username carol -disable-password extra", c07Err},
		{"user update -nick un", c07UserUpdate("", c07UserUpd{nick: "un"})},
		{`user update -realname "u r"`, c07UserUpdate("", c07UserUpd{realname: "u r"})},
		{"user update -password pw2", c07UserUpdate("", c07UserUpd{password: "pw2"})},
		{"user update -disable-password", c07UserUpdate("", c07UserUpd{disable: true})},
		{"user update -password pw2 -disable-password", c07Err},
		{"user update -admin true", c07UserUpdate("", c07UserUpd{admin: &T})},
		{"user update -admin false", c07UserUpdate("", c07UserUpd{admin: &F})},
		{"user update -enabled false", c07UserUpdate("", c07UserUpd{enabled: &F})},
		{"user update -max-networks 9", c07UserUpdate("", c07UserUpd{max: &nine})},
		{"user update -nick un -max-networks 9", c07UserUpdate("", c07UserUpd{nick: "un", max: &nine})},
		{"user update -nick un -admin true", c07UserUpdate("", c07UserUpd{nick: "un", admin: &T})},
		{"user update -nick un extra", c07Err},
		{"user update alice -nick un", c07UserUpdate("alice", c07UserUpd{nick: "un"})},
		{"user update alice -admin true", c07UserUpdate("alice", c07UserUpd{admin: &T})},
		{"user update alice -max-networks 9", c07UserUpdate("alice", c07UserUpd{max: &nine})},
		{"user update bob -nick hacked", c07UserUpdate("bob", c07UserUpd{nick: "hacked"})},
		{"user update bob -realname hacked", c07UserUpdate("bob", c07UserUpd{realname: "hacked"})},
		{"user update bob -password pw2", c07UserUpdate("bob", c07UserUpd{password: "pw2"})},
		{"user update bob -disable-password", c07UserUpdate("bob", c07UserUpd{disable: true})},
		{"user update bob -admin true", c07UserUpdate("bob", c07UserUpd{admin: &T})},
		{"user update bob -enabled false", c07UserUpdate("bob", c07UserUpd{enabled: &F})},
		{"user update bob -max-networks 1", c07UserUpdate("bob", c07UserUpd{max: &one})},
		{"user update bob -max-networks 1 -nick hacked", c07UserUpdate("bob", c07UserUpd{max: &one, nick: "hacked"})},
		{"user update bob", c07UserUpdate("bob", c07UserUpd{})},
		{"user update root -admin false", c07UserUpdate("root", c07UserUpd{admin: &F})},
		{"user update root -password pw2", c07UserUpdate("root", c07UserUpd{password: "pw2"})},
		{"user update nosuch -admin true", c07Err},
		{"user delete bob", c07UserDelete("bob", "")},
		{"user delete bob " + c07Token("bob"), c07UserDelete("bob", c07Token("bob"))},
		{"user delete bob " + c07Token("alice"), c07UserDelete("bob", c07Token("alice"))},
		{"user delete alice", c07UserDelete("alice", "")},
		{"user delete alice " + c07Token("alice"), c07UserDelete("alice", c07Token("alice"))},
		{"user delete alice xxxxxx", c07UserDelete("alice", "xxxxxx")},
		{"user delete root " + c07Token("root"), c07UserDelete("root", c07Token("root"))},
		{"user delete nosuch", c07Err},
		{"user delete", c07Err},
		{"user run bob", c07Err},
		{"user run nosuch network status", c07Err},
		{"server status", adminOK},
		{"server status extra", c07Err},
		{`server notice "hello all"`, c07Admin(func(s c07State, c c07Caller) c07Res { return c07Res{ok: true, all: true} })},
		{"server notice", c07Err},
		{"server notice a b", c07Err},
		{"server debug false", adminOK},
		{"server debug maybe", c07Err},
		{"server debug", c07Err},
	}
	return l
}

// c07Callers lists the connections commands are sent from.
var c07Callers = map[string]c07Caller{
	"alice/net": {user: "alice", bound: "net"},
	"alice":     {user: "alice"},
	"root/net":  {user: "root", bound: "net", admin: true},
	"root":      {user: "root", admin: true},
	"socket":    {admin: true},
}

type c07World struct {
	w       *kit.World
	c       *kit.Ctx
	clients map[string]*kit.Client // caller and witness connections
	owner   map[string]string      // client -> user
	servers map[string]*kit.UpServer
	sowner  map[string]string
	state   c07State
}

func c07Setup(c *kit.Ctx, w *kit.World, max int) *c07World {
	cw := &c07World{w: w, c: c, clients: map[string]*kit.Client{}, owner: map[string]string{}, servers: map[string]*kit.UpServer{}, sowner: map[string]string{}}
	for _, name := range []string{"alice", "bob", "root"} {
		u := w.AddUser(name, func(u *database.User) {
			u.Password = "original-" + name
			u.Admin = name == "root"
			u.MaxNetworks = max
		})
		add := func(net string, enabled bool) {
			addr := name + "secret-" + net + ".test"
			n, _ := w.AddNetwork(u, net, func(n *database.Network) {
				n.Addr = "irc+insecure://" + addr
				n.Enabled = enabled
				n.Pass = name + "secret-pass"
				if net != "net" {
					n.SASL.Mechanism = "PLAIN"
					n.SASL.Plain.Username = name + "secret-acct"
					n.SASL.Plain.Password = name + "secret-saslpass"
				}
			})
			s := w.Server(addr + ":6667")
			cw.servers[addr] = s
			cw.sowner[addr] = name
			w.AddChannel(n, "#a", nil)
			w.AddChannel(n, "#"+name+"secret", nil)
		}
		add("net", true)
		add("net2", false)
		if name == "bob" {
			add("bobnet", false)
		}
	}
	w.Server("new.test:6667")
	w.Start()
	conn := func(id, user, net string) {
		cw.clients[id] = w.Connect(id, kit.ConnOpts{User: user, Network: net})
		cw.owner[id] = user
	}
	conn("alice/net", "alice", "net")
	conn("alice", "alice", "")
	conn("root/net", "root", "net")
	conn("root", "root", "")
	conn("bob/net", "bob", "net")
	cw.clients["socket"] = w.DialAdmin("socket")
	cw.owner["socket"] = ""
	w.Settle()
	cw.state = c07Load(w.DB)
	return cw
}

func (cw *c07World) drain() {
	for _, cl := range cw.clients {
		cl.Take()
	}
	for _, s := range cw.servers {
		s.Take()
	}
}

// send runs a command on a connection and returns (replies, error replies).
func (cw *c07World) send(id, text string) (replies, errs []string) {
	cl := cw.clients[id]
	if id == "socket" {
		for _, m := range cl.Do("BOUNCERSERV :" + text) {
			switch m.Command {
			case "PRIVMSG":
				replies = append(replies, m.Params[1])
			case "FAIL":
				errs = append(errs, m.Params[1])
			case "BOUNCERSERV":
			default:
				replies = append(replies, m.String())
			}
		}
		return
	}
	for _, m := range cl.Do("PRIVMSG BouncerServ :" + text) {
		if m.Command == "PRIVMSG" && m.Prefix != nil && m.Prefix.Name == kit.ServiceNick {
			t := m.Params[len(m.Params)-1]
			if strings.HasPrefix(t, "error: ") {
				errs = append(errs, t)
			} else {
				replies = append(replies, t)
			}
		}
	}
	return
}

func c07Has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (cw *c07World) step(id string, cmd c07Cmd) bool {
	c, w := cw.c, cw.w
	cl := cw.clients[id]
	if cl.Closed() {
		return true
	}
	caller := c07Callers[id]
	if caller.user != "" {
		caller.admin = cw.state[caller.user] != nil && cw.state[caller.user].U.Admin
	}
	if caller.bound != "" {
		// clients bound to a deleted network are gone
		if u := cw.state[caller.user]; u == nil || u.find(caller, "") == nil {
			return true
		}
	}
	c.Step(id + "> " + cmd.text)
	cw.drain()
	gone := map[string]bool{}
	for cid, ocl := range cw.clients {
		gone[cid] = ocl.Closed()
	}
	ndials := len(w.Dials)
	before := cw.state
	after := before.copy()
	res := cmd.fn(after, caller)
	if !res.ok {
		after = before
	}
	replies, errs := cw.send(id, cmd.text)
	if !c.Check((len(errs) == 0) == res.ok && len(errs) <= 1, "%s: command %q: expected success=%v, got replies %q errors %q", id, cmd.text, res.ok, replies, errs) {
		return false
	}
	text := strings.Join(replies, "\n") + "\n" + strings.Join(errs, "\n")
	for _, s := range res.show {
		if !c.Check(strings.Contains(text, s), "%s: the reply to %q does not show %q: %q", id, cmd.text, s, replies) {
			return false
		}
	}
	if res.deleted != "" && res.deleted == caller.user {
		w.Settle()
	}
	db := c07Load(w.DB)
	for _, u := range db.names(after) {
		if !c.Check(db.render(u) == after.render(u), "after %q by %s, the stored data of user %s is\n%s\nexpected\n%s", cmd.text, id, u, db.render(u), after.render(u)) {
			return false
		}
	}
	cw.state = after
	// who heard about it
	for cid, ocl := range cw.clients {
		owner := cw.owner[cid]
		var raw []string
		for _, m := range ocl.Peek() {
			raw = append(raw, m.String())
			if cid != id && m.Command == "PRIVMSG" && m.Prefix != nil && m.Prefix.Name == kit.ServiceNick {
				return c.Check(false, "the reply to %q of %s was sent to %s: %s", cmd.text, id, cid, m)
			}
		}
		if cid == id || owner == "" {
			continue
		}
		if !res.all && !c07Has(res.touched, owner) && owner != caller.user {
			if !c.Check(len(raw) == 0 && ocl.Closed() == gone[cid], "command %q of %s is visible to %s: %q (closed: %v)", cmd.text, id, cid, raw, ocl.Closed()) {
				return false
			}
		}
		if c07Has(res.closed, owner) {
			if !c.Check(ocl.Closed(), "after %q of %s, the connection of %s is not closed", cmd.text, id, cid) {
				return false
			}
		} else if !res.ok {
			if !c.Check(len(raw) == 0 && ocl.Closed() == gone[cid], "the refused command %q of %s is visible to %s: %q (closed: %v)", cmd.text, id, cid, raw, ocl.Closed()) {
				return false
			}
		}
	}
	// nothing of other users in what a user's clients receive
	for cid, ocl := range cw.clients {
		owner := cw.owner[cid]
		if owner == "" || cid == id && res.secret {
			continue
		}
		for _, m := range ocl.All {
			line := m.String()
			for _, other := range []string{"alice", "bob", "root"} {
				if other != owner && (cid == id && !caller.admin || cid != id) && strings.Contains(line, other+"secret") {
					return c.Check(false, "client %s of user %s sees data of user %s: %s", cid, owner, other, line)
				}
			}
		}
	}
	for name, s := range cw.servers {
		owner := cw.sowner[name]
		got := kit.CmdLines(s.Take())
		if !res.ok || !c07Has(res.touched, owner) {
			if !c.Check(len(got) == 0, "command %q of %s (success=%v) makes the bouncer send %q for user %s", cmd.text, id, res.ok, got, owner) {
				return false
			}
		}
	}
	for _, d := range w.Dials[ndials:] {
		owner := cw.sowner[strings.TrimSuffix(d.Addr, ":6667")]
		if !c.Check(res.ok && (owner == "" || c07Has(res.touched, owner)), "command %q of %s makes the bouncer connect to %s", cmd.text, id, d.Addr) {
			return false
		}
	}
	return true
}

// flush makes the bouncer write its in-memory records back, and compares.
func (cw *c07World) flush() bool {
	c, w := cw.c, cw.w
	adm := "socket"
	for _, u := range kit.Keys(cw.state) {
		for _, n := range cw.state[u].Nets {
			for _, ch := range kit.Keys(n.Chans) {
				if strings.ContainsAny(ch, " /") {
					continue
				}
				if _, errs := cw.send(adm, fmt.Sprintf("user run %s channel update %s/%s", u, ch, n.N.Name)); len(errs) > 0 {
					return c.Check(false, "channel %s of network %s of user %s is stored but not usable: %q", ch, n.N.Name, u, errs)
				}
			}
			if _, errs := cw.send(adm, fmt.Sprintf("user run %s network update %s", u, n.N.Name)); len(errs) > 0 {
				return c.Check(false, "network %s of user %s is stored but not usable: %q", n.N.Name, u, errs)
			}
		}
		if _, errs := cw.send(adm, "user update "+u); len(errs) > 0 {
			return c.Check(false, "user %s is stored but not usable: %q", u, errs)
		}
	}
	db := c07Load(w.DB)
	for _, u := range db.names(cw.state) {
		if !c.Check(db.render(u) == cw.state.render(u), "the data of user %s in memory differs from the stored one: written back\n%s\nexpected\n%s", u, db.render(u), cw.state.render(u)) {
			return false
		}
	}
	return true
}

// c07Resolve expands a possibly abbreviated command word.
func c07Resolve(word string, names []string) string {
	var hit []string
	for _, n := range names {
		if n == word {
			return n
		}
		if strings.HasPrefix(n, word) {
			hit = append(hit, n)
		}
	}
	if len(hit) == 1 {
		return hit[0]
	}
	return ""
}

func TestC07(t *testing.T) {
	r := kit.Start(t, "C07")
	cmds := c07Commands()
	callers := kit.Keys(c07Callers)
	runOne := func(key string, max int, seq []struct {
		id  string
		cmd c07Cmd
	}, flush bool) {
		r.World(key, func(c *kit.Ctx, w *kit.World) {
			cw := c07Setup(c, w, max)
			for _, s := range seq {
				if !cw.step(s.id, s.cmd) {
					return
				}
			}
			if flush {
				cw.flush()
			}
		})
	}
	type stepT = struct {
		id  string
		cmd c07Cmd
	}
	// every command from every caller
	for _, max := range []int{-1, 1} {
		for _, id := range callers {
			for _, cmd := range cmds {
				if max == 1 && !strings.HasPrefix(cmd.text, "network ") {
					continue
				}
				runOne(fmt.Sprintf("single:max%d:%s:%s", max, id, cmd.text), max, []stepT{{id, cmd}}, true)
				r.Count(1, 1)
			}
		}
		// every command run as another user (and as oneself)
		for _, id := range callers {
			for _, target := range []string{"bob", "alice", "root"} {
				if max == 1 && target != "bob" {
					continue
				}
				for _, cmd := range cmds {
					if max == 1 && !strings.HasPrefix(cmd.text, "network ") {
						continue
					}
					if cmd.text == "" || strings.HasPrefix(cmd.text, "user run") {
						continue
					}
					// commands that would make two workers wait for each other
					if strings.HasPrefix(cmd.text, "user update root") && target != "root" && strings.HasPrefix(id, "root") {
						continue
					}
					if !r.Thorough() && (target == "root" || id == "root") && !strings.HasPrefix(cmd.text, "user ") {
						continue
					}
					// a worker that deletes the one waiting for its answer
					if strings.HasPrefix(cmd.text, "user delete root "+c07Token("root")) && strings.HasPrefix(id, "root") && target != "root" {
						continue
					}
					runOne(fmt.Sprintf("run:max%d:%s:%s:%s", max, id, target, cmd.text), max, []stepT{{id, c07Run(target, cmd)}}, true)
					r.Count(1, 1)
				}
			}
		}
	}
	r.Bound("every one of %d commands with its argument shapes from every caller (%v), directly and run as each user", len(cmds), callers)
	// abbreviations
	top := []string{"help", "network", "certfp", "sasl", "user", "channel", "server"}
	sub := map[string][]string{
		"network": {"create", "status", "update", "delete", "quote"},
		"certfp":  {"generate", "fingerprint"},
		"sasl":    {"status", "set-plain", "reset"},
		"user":    {"status", "create", "update", "delete", "run"},
		"channel": {"status", "create", "update", "delete"},
		"server":  {"status", "notice", "debug"},
	}
	seenCmd := map[string]bool{}
	for _, cmd := range cmds {
		f := strings.SplitN(cmd.text, " ", 3)
		if len(f) < 2 || sub[f[0]] == nil || !c07Has(sub[f[0]], f[1]) {
			continue
		}
		rest := ""
		if len(f) > 2 {
			rest = " " + f[2]
		}
		// one accepted shape per command
		base := f[0] + " " + f[1]
		st := c07State{"alice": {U: database.User{Username: "alice"}, Nets: []*c07Net{{Label: "net", N: database.Network{Name: "net", Enabled: true}, Chans: map[string]database.Channel{"#a": {Name: "#a"}}}}}, "bob": {U: database.User{Username: "bob"}}, "root": {U: database.User{Username: "root", Admin: true}}}
		st["root"].Nets = st["alice"].Nets
		if seenCmd[base] || !cmd.fn(st, c07Caller{user: "root", bound: "net", admin: true}).ok {
			continue
		}
		seenCmd[base] = true
		for i := 1; i <= len(f[0]); i++ {
			for j := 1; j <= len(f[1]); j++ {
				a, b := f[0][:i], f[1][:j]
				fn := cmd.fn
				ra := c07Resolve(a, top)
				if ra == "" || c07Resolve(b, sub[ra]) == "" {
					fn = c07Err
				}
				for _, id := range []string{"alice/net", "root/net", "socket"} {
					if !r.Thorough() && id == "root/net" && i < len(f[0]) && j < len(f[1]) {
						continue
					}
					runOne(fmt.Sprintf("abbrev:%s:%s:%s %s%s", base, id, a, b, rest), -1, []stepT{{id, c07Cmd{a + " " + b + rest, fn}}}, false)
					r.Count(1, 1)
				}
			}
		}
	}
	r.Bound("every prefix of both words of every command")
	// messages to everyone on the bouncer
	for _, id := range []string{"alice/net", "alice", "root/net", "root"} {
		for _, cmd := range []string{"PRIVMSG", "NOTICE"} {
			for _, target := range []string{"$bouncer", "$*", "$bouncer,BouncerServ", "$BOUNCER"} {
				r.World(fmt.Sprintf("broadcast:%s:%s:%s", id, cmd, target), func(c *kit.Ctx, w *kit.World) {
					cw := c07Setup(c, w, -1)
					cw.drain()
					w.Settle()
					cw.clients[id].Send(cmd + " " + target + " :network status")
					w.Settle()
					first := strings.Split(target, ",")[0]
					want := c07Callers[id].admin && (first == "$bouncer" || first == "$*" && c07Callers[id].bound == "")
					for cid, cl := range cw.clients {
						n := 0
						for _, m := range cl.Take() {
							if m.Command == cmd && len(m.Params) == 2 && m.Params[1] == "network status" && strings.HasPrefix(m.Params[0], "$") {
								n++
							}
						}
						exp := 0
						if want && cid != "socket" {
							exp = 1
						}
						c.Check(n == exp, "%s %s by %s: %s got %d copies, expected %d", cmd, target, id, cid, n, exp)
					}
					if want {
						return
					}
					for name, s := range cw.servers {
						got := kit.CmdLines(s.Take())
						owner := cw.sowner[name]
						c.Check(len(got) == 0 || owner == c07Callers[id].user && first != "$bouncer", "%s %s by %s makes the bouncer send %q for %s", cmd, target, id, got, owner)
					}
				})
				r.Count(1, 1)
			}
		}
	}
	// sequences
	find := func(text string) c07Cmd {
		for _, cmd := range cmds {
			if cmd.text == text {
				return cmd
			}
		}
		panic("harness: no command " + text)
	}
	var acts []string
	actOf := map[string]stepT{}
	add := func(id string, cmd c07Cmd) {
		k := id + ">" + cmd.text
		acts = append(acts, k)
		actOf[k] = stepT{id, cmd}
	}
	add("alice/net", find("network update net -name renamed"))
	add("alice/net", find("network update net -nick n2"))
	add("alice/net", find("network update net -enabled false"))
	add("alice/net", find("channel update #a -relay-detached message -detach-on bogus"))
	add("alice/net", find("channel update #a -detached true"))
	add("alice/net", find("channel delete #a"))
	add("alice/net", find("network delete net"))
	add("alice/net", find("user update -nick un"))
	add("alice", find("user update bob -admin true"))
	add("alice", find("user update -max-networks 9"))
	add("alice", find("network create -addr irc+insecure://new.test -name new"))
	add("alice", find("network create -addr irc+insecure://new.test -name new -ignore-limit"))
	add("alice", find("user status"))
	add("alice", c07Run("alice", find("user update -max-networks 9")))
	add("alice", find("user delete alice "+c07Token("alice")))
	add("root", find("user update alice -admin true"))
	add("root", find("user update bob -max-networks 1"))
	add("root", c07Run("alice", find("user update -max-networks 9")))
	add("root", c07Run("alice", find("network create -addr irc+insecure://new.test -name new -ignore-limit")))
	add("root", c07Run("bob", find("network delete net")))
	add("root", c07Run("alice", find("network update net -enabled false")))
	add("socket", find("user update root -admin false"))
	add("socket", find("user update bob -enabled false"))
	add("socket", find("user delete bob "+c07Token("bob")))
	add("socket", c07Run("alice", find("sasl set-plain -network net acct sekrit")))
	add("socket", find("user create -username bob -disable-password"))
	add("root", find("user status bob"))
	if r.Thorough() {
		add("root/net", find("user delete root "+c07Token("root")))
		add("root/net", find("network update -nick n2"))
		add("alice/net", find("sasl set-plain acct sekrit"))
		add("alice/net", find("sasl reset"))
	}
	r.Tree("seq", r.Pick(2, 3), func(seq []string) []string { return acts }, func(key string, seq []string) {
		var l []stepT
		for _, a := range seq {
			l = append(l, actOf[a])
		}
		runOne(key, 1, l, true)
	})
}
