package props

import (
	"context"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
	"unicode"

	"golang.org/x/crypto/hkdf"
	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"

	"sojuverif/kit"
)

// C26: push notifications.
//
// The transport used for the requests to the push servers is replaced by one
// which records and decrypts them. The model keeps, by network, the
// subscriptions and the conversations with a notification which has not been
// read yet.

type c26Key struct {
	priv   *ecdh.PrivateKey
	auth   []byte
	pub    string // base64
	secret string // base64
}

var c26Keys = func() map[string]*c26Key {
	m := map[string]*c26Key{}
	for _, n := range []string{"k1", "k2"} {
		h := sha256.Sum256([]byte("sojuverif " + n))
		priv, err := ecdh.P256().NewPrivateKey(h[:])
		if err != nil {
			panic(err)
		}
		a := sha256.Sum256([]byte("auth " + n))
		k := &c26Key{priv: priv, auth: a[:16]}
		k.pub = base64.RawURLEncoding.EncodeToString(priv.PublicKey().Bytes())
		k.secret = base64.RawURLEncoding.EncodeToString(k.auth)
		m[n] = k
	}
	return m
}()

func c26HKDF(secret, salt, info []byte, n int) []byte {
	b := make([]byte, n)
	if _, err := io.ReadFull(hkdf.New(sha256.New, secret, salt, info), b); err != nil {
		panic(err)
	}
	return b
}

// decrypt implements the receiver side of RFC 8291.
func (k *c26Key) decrypt(body []byte) (string, error) {
	if len(body) < 21 || len(body) < 21+int(body[20]) {
		return "", errors.New("short body")
	}
	salt, rs, kid, data := body[:16], binary.BigEndian.Uint32(body[16:20]), body[21:21+int(body[20])], body[21+int(body[20]):]
	if len(data) > int(rs) || len(body) > 4096 {
		return "", errors.New("record too large")
	}
	pub, err := ecdh.P256().NewPublicKey(kid)
	if err != nil {
		return "", err
	}
	shared, err := k.priv.ECDH(pub)
	if err != nil {
		return "", err
	}
	info := append([]byte("WebPush: info\x00"), k.priv.PublicKey().Bytes()...)
	ikm := c26HKDF(shared, k.auth, append(info, kid...), 32)
	block, err := aes.NewCipher(c26HKDF(ikm, salt, []byte("Content-Encoding: aes128gcm\x00"), 16))
	if err != nil {
		return "", err
	}
	gcm, err := cipher.NewGCM(block)
	if err != nil {
		return "", err
	}
	plain, err := gcm.Open(nil, c26HKDF(ikm, salt, []byte("Content-Encoding: nonce\x00"), 12), data, nil)
	if err != nil {
		return "", err
	}
	s := strings.TrimRight(string(plain), "\x00")
	if !strings.HasSuffix(s, "\x02") {
		return "", errors.New("bad padding")
	}
	return s[:len(s)-1], nil
}

// c26Push is the push servers: one endpoint per URL.
type c26Push struct {
	mu   sync.Mutex
	got  []string          // "endpoint key line"
	bad  []string          // malformed requests
	code map[string]string // by endpoint: "" is success
}

func (p *c26Push) RoundTrip(req *http.Request) (*http.Response, error) {
	body, err := io.ReadAll(req.Body)
	ep := req.URL.String()
	p.mu.Lock()
	key, line := "", ""
	for n, k := range c26Keys {
		if l, e := k.decrypt(body); e == nil {
			key, line = n, l
		}
	}
	ttl, terr := strconv.Atoi(req.Header.Get("TTL"))
	auth := req.Header.Get("Authorization")
	switch {
	case err != nil, key == "", req.Method != "POST", req.Header.Get("Content-Encoding") != "aes128gcm", terr != nil || ttl <= 0,
		!strings.HasPrefix(auth, "vapid "), !strings.Contains(auth, "k="+kit.VapidPub), strings.ContainsAny(line, "\r\n"):
		p.bad = append(p.bad, fmt.Sprintf("%s %s %v %q", req.Method, ep, req.Header, line))
	default:
		p.got = append(p.got, ep+" "+key+" "+line)
	}
	code := p.code[ep]
	p.mu.Unlock()
	st := 201
	switch code {
	case "":
	case "hang":
		<-req.Context().Done()
		return nil, req.Context().Err()
	case "refuse":
		return nil, errors.New("connection refused")
	default:
		st, _ = strconv.Atoi(code)
	}
	return &http.Response{StatusCode: st, Status: strconv.Itoa(st), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: http.NoBody, Request: req}, nil
}

func (p *c26Push) take() ([]string, []string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	g, b := p.got, p.bad
	p.got, p.bad = nil, nil
	return g, b
}

var c26Ep = map[string]string{"e1": "https://192.0.2.1/push/1", "e2": "https://192.0.2.1/push/12?x=y", "e3": "https://[2001:db8::1]/3"}

type c26Sub struct {
	key string
	at  time.Time
}

type c26World struct {
	c               *kit.Ctx
	w               *kit.World
	p               *c26Push
	subs            map[string]map[string]c26Sub    // network -> endpoint
	todo            map[string]map[string]time.Time // network -> conversation -> last notification
	mark            map[string]map[string]time.Time // network -> conversation -> marker
	cl              map[string]*kit.Client
	srv             map[string]*kit.UpServer
	net             map[string]*database.Network
	user            map[string]int64
	want            []string
	n               int
	nick            string
	det             bool // #d is detached
	join            bool // #p is joined
	relay, reattach string
}

var c26Who = map[string]struct{ user, net string }{"a": {"alice", "n1"}, "b": {"alice", "n1"}, "o": {"alice", "n2"}, "u": {"alice", ""}, "z": {"zoe", "zn"}}

func (x *c26World) uid(net string) (int64, int64) {
	if net == "" {
		return x.user["alice"], 0
	}
	u := "alice"
	if net == "zn" {
		u = "zoe"
	}
	return x.user[u], x.net[net].ID
}

// c26New starts a world; old is the age of the subscriptions which exist from
// the start, 0 for none.
func c26New(c *kit.Ctx, w *kit.World, relay, reattach string, old time.Duration) *c26World {
	x := &c26World{c: c, w: w, p: &c26Push{code: map[string]string{}}, subs: map[string]map[string]c26Sub{}, todo: map[string]map[string]time.Time{}, mark: map[string]map[string]time.Time{},
		srv: map[string]*kit.UpServer{}, net: map[string]*database.Network{}, user: map[string]int64{}, nick: "alice", det: true, join: true, relay: relay, reattach: reattach}
	http.DefaultTransport = x.p
	for _, un := range []struct {
		user string
		nets []string
	}{{"alice", []string{"n1", "n2"}}, {"zoe", []string{"zn"}}} {
		u := w.AddUser(un.user, nil)
		x.user[un.user] = u.ID
		for _, n := range un.nets {
			rec, s := w.AddNetwork(u, n, nil)
			s.ISupport = append(s.ISupport, "CASEMAPPING=rfc1459", "STATUSMSG=@+")
			w.AddChannel(rec, "#c", nil)
			w.AddChannel(rec, "#d", func(ch *database.Channel) {
				ch.Detached = true
				ch.RelayDetached = c26Filter[relay]
				ch.ReattachOn = c26Filter[reattach]
			})
			w.AddChannel(rec, "#p", nil)
			x.srv[n], x.net[n] = s, rec
		}
	}
	for _, n := range []string{"", "n1", "n2", "zn"} {
		x.subs[n], x.todo[n], x.mark[n] = map[string]c26Sub{}, map[string]time.Time{}, map[string]time.Time{}
	}
	if old > 0 {
		for _, n := range []string{"", "n1", "n2", "zn"} {
			for _, e := range []string{"e1", "e2"} {
				if e == "e2" && n != "n1" {
					continue
				}
				sub := &database.WebPushSubscription{Endpoint: c26Ep[e]}
				sub.Keys.Auth, sub.Keys.P256DH, sub.Keys.VAPID = c26Keys["k1"].secret, c26Keys["k1"].pub, kit.VapidPub
				u, id := x.uid(n)
				c.Check(w.DB.StoreWebPushSubscription(context.Background(), u, id, sub) == nil, "StoreWebPushSubscription failed")
				x.subs[n][c26Ep[e]] = c26Sub{"k1", time.Now()}
			}
		}
		time.Sleep(old)
	}
	w.Start()
	x.connect()
	return x
}

var c26Filter = map[string]database.MessageFilter{"default": database.FilterDefault, "none": database.FilterNone, "highlight": database.FilterHighlight, "message": database.FilterMessage}

func (x *c26World) connect() {
	x.cl = map[string]*kit.Client{}
	for _, who := range []string{"a", "b", "o", "u", "z"} {
		p := c26Who[who]
		caps := []string{"draft/read-marker", "soju.im/webpush", "message-tags", "server-time"}
		if who == "b" {
			caps = nil
		}
		x.cl[who] = x.w.Connect(who, kit.ConnOpts{User: p.user, Network: p.net, Client: who, Caps: caps})
		m := x.cl[who].Take()
		x.c.Check(x.cl[who].Registered(), "%s is not registered", who)
		v := ""
		for _, l := range kit.Select(m, "005") {
			for _, t := range l.Params {
				if strings.HasPrefix(t, "VAPID=") {
					v = t[6:]
				}
			}
		}
		x.c.Check((v == kit.VapidPub) == (caps != nil), "%s is told the VAPID key %q", who, v)
	}
}

// expect adds a notification for the subscriptions of a network.
func (x *c26World) expect(net, line string) {
	for e, s := range x.subs[net] {
		x.want = append(x.want, e+" "+s.key+" "+line)
		switch code := x.p.code[e]; {
		case code == "404":
			delete(x.subs[net], e)
		case code != "" && code != "204" && time.Since(s.at) > 30*24*time.Hour:
			delete(x.subs[net], e)
		}
	}
}

func c26Canon(line string) string {
	f := strings.SplitN(line, " ", 3)
	m, err := irc.ParseMessage(f[2])
	if err != nil {
		return line
	}
	var tags []string
	for k, v := range m.Tags {
		tags = append(tags, k+"="+v)
	}
	sort.Strings(tags)
	m.Tags = nil
	return fmt.Sprintf("%s %s %q %s", f[0], f[1], tags, m)
}

// settle lets things happen and compares the notifications.
func (x *c26World) settle(what string) {
	x.w.Settle()
	for _, c := range x.p.code {
		if c == "hang" {
			x.w.Sleep(50 * time.Second)
			break
		}
	}
	got, bad := x.p.take()
	x.c.Check(len(bad) == 0, "%s: malformed requests %s", what, kit.Q(bad))
	var g, want []string
	for _, l := range got {
		g = append(g, c26Canon(l))
	}
	for _, l := range x.want {
		want = append(want, c26Canon(l))
	}
	x.want = nil
	x.c.Check(kit.EqSet(g, want), "%s: the notifications are %s, want %s", what, kit.Q(kit.Sorted(g)), kit.Q(kit.Sorted(want)))
	x.stored(what)
}

// stored compares the stored subscriptions.
func (x *c26World) stored(what string) {
	for net, want := range x.subs {
		if net != "" && x.net[net] == nil {
			continue
		}
		u, id := x.uid(net)
		l, err := x.w.DB.ListWebPushSubscriptions(context.Background(), u, id)
		x.c.Check(err == nil, "ListWebPushSubscriptions: %v", err)
		var g, wl []string
		for _, s := range l {
			g = append(g, s.Endpoint+" "+s.Keys.P256DH+" "+s.Keys.Auth)
		}
		for e, s := range want {
			wl = append(wl, e+" "+c26Keys[s.key].pub+" "+c26Keys[s.key].secret)
		}
		x.c.Check(kit.EqSet(g, wl), "%s: the subscriptions of %q are %s, want %s", what, net, kit.Q(kit.Sorted(g)), kit.Q(kit.Sorted(wl)))
	}
}

func (x *c26World) replied(what, who string, want ...string) {
	var g []string
	for _, m := range x.cl[who].Take() {
		if m.Command == "FAIL" && len(m.Params) > 0 {
			g = append(g, "FAIL "+m.Params[0])
		} else if m.Command == "461" || m.Command == "421" {
			g = append(g, "FAIL "+m.Params[1])
		} else if m.Command == "WEBPUSH" || m.Command == "MARKREAD" {
			m.Prefix, m.Tags = nil, nil
			g = append(g, m.String())
		}
	}
	x.c.Check(kit.Eq(g, want), "%s: the reply is %s, want %s", what, kit.Q(g), kit.Q(want))
}

// message: a message of the server; class says why it deserves attention.
func (x *c26World) message(net, tags, line, buf string, push bool) {
	x.n++
	at := time.Now().UTC().Truncate(time.Millisecond)
	full := line
	if tags != "" {
		full = "@" + tags + " " + line
	}
	for _, t := range strings.Split(tags, ";") {
		if strings.HasPrefix(t, "time=") {
			at, _ = time.Parse(c11Layout, t[5:])
		}
	}
	x.srv[net].Send(full)
	if push {
		if !strings.Contains(tags, "time=") {
			if tags != "" {
				tags += ";"
			}
			tags += "time=" + at.Format(c11Layout)
		}
		x.expect(net, "@"+tags+" "+line)
		if buf != "" {
			x.todo[net][buf] = at
		}
	}
	x.settle(full)
	for _, cl := range x.cl {
		cl.Take()
	}
}

var c26Events = []string{"dm", "dmnotice", "dmtag", "dmtags", "dmctcp", "dmself", "dmserv", "chan", "hl", "HL", "hlnotice", "hlself", "hltag", "hlstatus", "hlcase", "hlctx", "dplain", "dhl", "dself", "unsaved", "srvnotice", "mask", "star", "bsrv", "nickserv",
	"invite", "inviteother", "invitesaved", "invitejoined", "join", "topic", "kick", "mode", "quit", "nick", "sent", "senthl", "hldm2", "hlz"}

func (x *c26World) event(a string) {
	pre := ":bob!u@h "
	nick := x.nick
	switch a {
	case "dm":
		x.message("n1", "", pre+"PRIVMSG "+nick+" :hello there", "bob", true)
	case "dmnotice":
		x.message("n1", "msgid=abc;account=bob", pre+"NOTICE "+nick+" :hello", "bob", true)
	case "dmtag":
		x.message("n1", "+draft/react=x;msgid=m", pre+"TAGMSG "+nick, "bob", true)
	case "dmtags":
		x.message("n1", "time="+time.Now().UTC().Format(c11Layout)+";msgid=abc", pre+"PRIVMSG "+strings.ToUpper(nick)+" :hi", "bob", true)
	case "dmctcp":
		x.message("n1", "", pre+"PRIVMSG "+nick+" :\x01ACTION waves\x01", "bob", true)
	case "dmself":
		x.message("n1", "", ":"+nick+"!u@h PRIVMSG bob :hi "+nick, "", false)
	case "dmserv":
		x.message("n1", "", ":"+x.srv["n1"].Name+" NOTICE "+nick+" :server notice", "", false)
	case "chan":
		x.message("n1", "", pre+"PRIVMSG #c :hello", "", false)
	case "hl":
		x.message("n1", "msgid=1", pre+"PRIVMSG #c :hello "+nick+"!", "#c", true)
	case "HL":
		x.message("n1", "", pre+"PRIVMSG #C :"+nick, "#c", true)
	case "hlnotice":
		x.message("n1", "", pre+"NOTICE #c :hello ("+nick+")", "#c", true)
	case "hlself":
		x.message("n1", "", ":"+nick+"!u@h PRIVMSG #c :I am "+nick, "", false)
	case "hltag":
		x.message("n1", "+x="+nick, pre+"TAGMSG #c", "", false)
	case "hlstatus":
		x.message("n1", "", pre+"PRIVMSG @#c :"+nick+": ops", "#c", true)
	case "hlcase":
		x.message("n1", "", pre+"PRIVMSG #c :malice and "+nick+"2 and "+nick+"_ http://x/"+nick, "", false)
	case "hlctx":
		// counts as a message to the channel if the sender is there too
		x.message("n1", "+draft/channel-context=#c", pre+"PRIVMSG "+nick+" :psst", "bob", true)
		x.srv["n1"].Do(":bob!u@h JOIN #c")
		x.message("n1", "+draft/channel-context=#c", pre+"PRIVMSG "+nick+" :psst", "", false)
		x.message("n1", "+draft/channel-context=#c", pre+"PRIVMSG "+nick+" :psst, "+nick, "#c", true)
		x.srv["n1"].Do(":bob!u@h PART #c")
	case "dplain":
		x.detached("PRIVMSG #d :hello", false)
	case "dhl":
		x.detached("PRIVMSG #d :hello "+nick, true)
	case "dself":
		x.message("n1", "", ":"+nick+"!u@h PRIVMSG #d :"+nick, "", false)
	case "unsaved":
		x.srv["n1"].Do(":" + nick + "!u@h JOIN #forced")
		x.message("n1", "", pre+"PRIVMSG #forced :"+nick+": hi", "#forced", true)
	case "srvnotice":
		x.message("n1", "", "NOTICE "+nick+" :hello "+nick, "", false)
	case "mask":
		x.message("n1", "", pre+"PRIVMSG $*.test :hello "+nick, "", false)
	case "star":
		x.message("n1", "", pre+"NOTICE * :hello "+nick, "", false)
	case "bsrv":
		x.message("n1", "", ":BouncerServ!u@h PRIVMSG "+nick+" :hello", "", false)
	case "nickserv":
		x.message("n1", "", ":NickServ!u@h NOTICE "+nick+" :please identify", "nickserv", true)
	case "invite":
		x.message("n1", "", pre+"INVITE "+nick+" #new", "", true)
	case "inviteother":
		x.message("n1", "", pre+"INVITE carol #c", "", false)
	case "invitejoined":
		x.message("n1", "", pre+"INVITE "+nick+" #c", "", true)
	case "invitesaved":
		// the channel is saved: the bouncer joins it
		x.message("n1", "", pre+"INVITE "+nick+" #p", "", x.join)
		x.join = true
	case "join":
		x.message("n1", "", ":"+nick+"x!u@h JOIN #c", "", false)
	case "topic":
		x.message("n1", "", pre+"TOPIC #c :"+nick, "", false)
	case "kick":
		x.message("n1", "", pre+"KICK #p "+nick+" :"+nick, "", false)
		x.join = false
	case "mode":
		x.message("n1", "", pre+"MODE #c +o "+nick, "", false)
	case "quit":
		x.message("n1", "", ":"+nick+"x!u@h QUIT :"+nick, "", false)
	case "nick":
		x.nick = map[string]string{"alice": "Ally", "Ally": "alice"}[x.nick]
		x.message("n1", "", ":"+nick+"!u@h NICK "+x.nick, "", false)
	case "sent":
		x.cl["a"].Do("PRIVMSG bob :hello bob")
		x.settle(a)
	case "senthl":
		x.cl["a"].Do("PRIVMSG #c :I am " + nick)
		x.settle(a)
	case "hldm2":
		x.message("n2", "", ":carol!u@h PRIVMSG alice :on the other network", "carol", true)
	case "hlz":
		x.message("zn", "", ":carol!u@h PRIVMSG #c :zoe and alice", "#c", true)
	default:
		panic(a)
	}
}

func (x *c26World) detached(line string, hl bool) {
	push := hl
	if x.det {
		re := x.reattach == "message" || x.reattach == "highlight" && hl
		if re {
			x.det = false
		} else if x.relay == "none" {
			push = false
		}
	}
	x.message("n1", "", ":bob!u@h "+line, "#d", push)
}

func (x *c26World) apply(a string) {
	x.c.Step(a)
	x.w.Sleep(5 * time.Second)
	f := strings.Split(a, "|")
	switch f[0] {
	case "ev":
		x.event(f[1])
	case "reg":
		who, e, k := f[1], c26Ep[f[2]], f[3]
		net := c26Who[who].net
		cmd := "WEBPUSH REGISTER "
		if len(f) > 4 {
			cmd = "WEBPUSH " + f[4] + " "
		}
		x.cl[who].Take()
		x.cl[who].Send(cmd + e + " p256dh=" + c26Keys[k].pub + ";auth=" + c26Keys[k].secret)
		old, ok := x.subs[net][e]
		reply := "WEBPUSH REGISTER " + e
		if !ok || old.key != k || time.Since(old.at) > 24*time.Hour {
			x.want = append(x.want, e+" "+k+" NOTE WEBPUSH REGISTERED :Push notifications enabled")
			if c := x.p.code[e]; c == "" || c == "204" {
				x.subs[net][e] = c26Sub{k, time.Now()}
			} else {
				reply = "FAIL WEBPUSH"
			}
		}
		x.settle(a)
		x.replied(a, who, reply)
	case "unreg":
		who, e := f[1], c26Ep[f[2]]
		x.cl[who].Take()
		x.cl[who].Send("WEBPUSH UNREGISTER " + e)
		delete(x.subs[c26Who[who].net], e)
		x.settle(a)
		x.replied(a, who, "WEBPUSH UNREGISTER "+e)
	case "bad":
		who := f[1]
		x.cl[who].Take()
		x.cl[who].Send(f[2])
		x.settle(a)
		x.replied(a, who, "FAIL WEBPUSH")
	case "code":
		x.p.code[c26Ep[f[1]]] = f[2]
	case "mark":
		who, target := f[1], f[2]
		net := c26Who[who].net
		buf := strings.ToLower(target)
		last, has := x.todo[net][buf]
		var t time.Time
		switch f[3] {
		case "old":
			t = c11Past[1]
		case "before":
			t = last.Add(-time.Millisecond)
		case "at":
			t = last
		case "now":
			t = time.Now().UTC().Truncate(time.Millisecond)
		}
		if t.Before(c11Past[0]) || t.Year() < 1990 {
			t = c11Past[2]
		}
		x.cl[who].Take()
		v := "timestamp=" + t.Format(c11Layout)
		x.cl[who].Send("MARKREAD " + target + " " + v)
		if x.mark[net][buf].Before(t) {
			x.mark[net][buf] = t
			if has {
				x.expect(net, "MARKREAD "+target+" "+v)
				if !t.Before(last) {
					delete(x.todo[net], buf)
				}
			}
		}
		x.settle(a)
	case "markbad":
		x.cl["a"].Send("MARKREAD bob timestamp=x")
		x.settle(a)
	case "part":
		x.cl["a"].Send("PART #c")
		delete(x.todo["n1"], "#c")
		x.w.Settle()
		x.cl["a"].Send("JOIN #c")
		x.settle(a)
	case "detach":
		if !x.det {
			x.cl["a"].Send("PART #d :detach")
			x.det = true
		}
		x.settle(a)
	case "attach":
		if x.det {
			x.cl["a"].Send("JOIN #d")
			x.det = false
		}
		x.settle(a)
	case "drop":
		x.srv["n1"].Drop()
		x.w.Settle()
		x.w.AwaitLive(x.srv["n1"], 5*time.Minute)
		x.nick = "alice"
		x.join = true
		x.settle(a)
	case "update":
		x.cl["o"].Send("PRIVMSG BouncerServ :network update n1 -realname r" + strconv.Itoa(x.n))
		x.n++
		x.w.Settle()
		x.w.AwaitLive(x.srv["n1"], 5*time.Minute)
		x.nick = "alice"
		x.join = true
		x.settle(a)
	case "restart":
		x.w.Restart()
		for _, n := range []string{"n1", "n2", "zn"} {
			x.todo[n] = map[string]time.Time{}
			x.w.AwaitLive(x.srv[n], 5*time.Minute)
		}
		x.nick = "alice"
		x.join = true
		x.connect()
		x.settle(a)
	case "leave":
		for _, cl := range x.cl {
			cl.Quit()
		}
		x.w.Settle()
		x.settle(a)
		x.event("dm")
		x.event("hl")
		x.connect()
		x.settle(a)
	default:
		panic(a)
	}
}

// final: every kind of subscription still gets what it should.
func (x *c26World) final() {
	for _, e := range []string{"dm", "hl", "hldm2", "hlz"} {
		if x.c.Bad() {
			return
		}
		x.w.Sleep(5 * time.Second)
		x.event(e)
	}
	x.apply("mark|a|bob|now")
	x.apply("mark|b|#c|now")
	x.apply("mark|a|#c|now")
}

// c26Highlight is the reference: the nickname is a word of its own, outside of
// links.
func c26Highlight(text, nick string) bool {
	word := func(r rune) bool { return unicode.IsLetter(r) || unicode.IsNumber(r) || strings.ContainsRune("-_|", r) }
	for _, w := range strings.Fields(text) {
		l := strings.Index(w, "http://")
		rs := []rune(w)
		for i := 0; i+len(nick) <= len(rs); i++ {
			if string(rs[i:i+len(nick)]) != nick || i > 0 && word(rs[i-1]) || i+len(nick) < len(rs) && word(rs[i+len(nick)]) {
				continue
			}
			if l >= 0 && len(string(rs[:i])) > l {
				continue
			}
			return true
		}
	}
	return false
}

func TestC26(t *testing.T) {
	r := kit.Start(t, "C26")
	old := http.DefaultTransport
	defer func() { http.DefaultTransport = old }()
	run := func(relay, reattach string, age time.Duration) func(key string, seq []string) {
		return func(key string, seq []string) {
			r.World(key, func(c *kit.Ctx, w *kit.World) {
				x := c26New(c, w, relay, reattach, age)
				for _, a := range seq {
					if c.Bad() {
						return
					}
					x.apply(a)
				}
				if !c.Bad() {
					x.final()
				}
			})
		}
	}
	var evs []string
	for _, e := range c26Events {
		evs = append(evs, "ev|"+e)
	}
	marks := []string{"mark|a|bob|old", "mark|a|bob|before", "mark|a|BOB|at", "mark|b|bob|now", "mark|a|#c|at", "mark|b|#C|now", "mark|o|carol|at", "mark|z|#c|at", "mark|o|bob|now", "mark|a|#d|now", "mark|u|bob|now", "mark|a|#forced|at"}
	// every kind of event, in every filter setting, followed by another one or a marker
	for _, relay := range []string{"default", "none", "highlight", "message"} {
		for _, re := range []string{"none", "highlight", "message"} {
			all := append(append([]string{}, evs...), marks...)
			all = append(all, "detach", "attach")
			depth := 2
			if relay != "default" || re != "none" {
				all = []string{"ev|dplain", "ev|dhl", "ev|dself", "detach", "attach", "mark|a|#d|now", "mark|a|#d|before", "ev|hl", "restart"}
				depth = r.Pick(3, 4)
			}
			r.Tree("events-"+relay+","+re, depth, func([]string) []string { return all }, run(relay, re, time.Hour))
		}
	}
	// subscriptions, with each answer of the push server
	subs := []string{"reg|a|e1|k1", "reg|a|e1|k2", "reg|a|e2|k1|register", "reg|o|e1|k1", "reg|u|e2|k2", "reg|z|e1|k2", "unreg|a|e1", "unreg|o|e1", "unreg|z|e2", "unreg|u|e1", "code|e1|404", "code|e1|500", "code|e2|410", "code|e1|204", "code|e1|refuse", "code|e1|", "ev|dm", "restart", "update", "leave"}
	for _, age := range []time.Duration{0, time.Hour, 25 * time.Hour, 31 * 24 * time.Hour} {
		r.Tree(fmt.Sprintf("subs-%v", age), r.Pick(2, 3), func([]string) []string { return subs }, run("default", "none", age))
	}
	// longer histories
	small := []string{"reg|a|e1|k2", "unreg|a|e1", "code|e1|404", "code|e1|", "ev|dm", "mark|a|bob|before", "mark|b|bob|now", "ev|hl", "mark|a|#c|at", "mark|b|#C|now", "part", "drop", "update", "restart"}
	r.Tree("history", r.Pick(3, 4), func([]string) []string { return small }, run("default", "none", time.Hour))
	// push servers which do not answer
	slow := []string{"code|e1|hang", "code|e2|hang", "reg|a|e1|k2", "ev|dm", "mark|a|bob|now", "ev|hl"}
	r.Tree("slow", r.Pick(3, 4), func([]string) []string { return slow }, run("default", "none", time.Hour))

	// refused commands change nothing
	k := "p256dh=" + c26Keys["k1"].pub + ";auth=" + c26Keys["k1"].secret
	for _, age := range []time.Duration{0, time.Hour} {
		for i, b := range []string{"WEBPUSH", "WEBPUSH REGISTER", "WEBPUSH REGISTER " + c26Ep["e3"], "WEBPUSH FOO " + c26Ep["e3"] + " " + k, "WEBPUSH UNREGISTER", "WEBPUSH REGISTER " + c26Ep["e3"] + " p256dh=" + c26Keys["k1"].pub, "WEBPUSH REGISTER " + c26Ep["e3"] + " auth=" + c26Keys["k1"].secret,
			"WEBPUSH REGISTER " + c26Ep["e3"] + " p256dh=;auth=", "WEBPUSH REGISTER " + c26Ep["e3"] + " p256dh=AAAA;auth=AAAA", "WEBPUSH REGISTER http://192.0.2.1/x " + k, "WEBPUSH REGISTER https://127.0.0.1/x " + k, "WEBPUSH REGISTER https://127.0.0.1:443/x " + k, "WEBPUSH REGISTER https://10.0.0.1/x " + k,
			"WEBPUSH REGISTER https://[::1]/x " + k, "WEBPUSH REGISTER https://[::1]:1/x " + k, "WEBPUSH REGISTER https://192.168.1.1/x " + k, "WEBPUSH REGISTER https://224.0.0.1/x " + k, "WEBPUSH REGISTER ftp://192.0.2.1/x " + k, "WEBPUSH REGISTER 192.0.2.1 " + k, "WEBPUSH REGISTER :: " + k, "WEBPUSH REGISTER : " + k} {
			for _, who := range []string{"a", "b"} {
				run("default", "none", age)(fmt.Sprintf("bad:%v,%d,%s", age, i, who), []string{"bad|" + who + "|" + b, "reg|a|e1|k1"})
			}
		}
	}
	run("default", "none", 0)("ipv6", []string{"reg|a|e3|k1", "ev|dm", "unreg|a|e3", "ev|dm"})
	r.Bound("malformed and refused WEBPUSH commands: 21 shapes")
	for _, cmd := range []string{"WEBPUSH REGISTER " + c26Ep["e3"] + " " + k, "WEBPUSH UNREGISTER " + c26Ep["e1"], "WEBPUSH"} {
		r.World("uncapable:"+cmd[:min(len(cmd), 12)], func(c *kit.Ctx, w *kit.World) {
			x := c26New(c, w, "default", "none", time.Hour)
			cl := w.Connect("plain", kit.ConnOpts{User: "alice", Network: "n1", Client: "plain"})
			cl.Take()
			got := kit.Lines(cl.Do(cmd))
			c.Check(len(got) == 1 && strings.Contains(got[0], " 421 "), "%s without the capability: reply %s", cmd, kit.Q(got))
			x.settle(cmd)
			x.apply("ev|dm")
		})
	}

	// long tags
	for _, n := range []int{100, 1000, 1800, 1850, 1900, 1950, 2000, 4000} {
		r.World(fmt.Sprintf("tags:%d", n), func(c *kit.Ctx, w *kit.World) {
			x := c26New(c, w, "default", "none", time.Hour)
			x.srv["n1"].Send("@+draft/x=" + strings.Repeat("y", n) + ";msgid=m1 :bob!u@h PRIVMSG alice :hello")
			w.Settle()
			got, bad := x.p.take()
			c.Check(len(got) == 2 && len(bad) == 0, "a message with %d bytes of tags: notifications %s %s, want one for each of 2 subscriptions", n, kit.Q(got), kit.Q(bad))
			for _, g := range got {
				m, err := irc.ParseMessage(strings.SplitN(g, " ", 3)[2])
				c.Check(err == nil && m.Tags["msgid"] == "m1" && m.Prefix.Name == "bob" && m.Param(1) == "hello", "a message with %d bytes of tags: the notification is %q", n, g)
			}
		})
	}
	r.Bound("messages with 100 to 4000 bytes of tags")

	// what counts as a highlight: all texts over an alphabet
	alpha := []string{"alice", "x", " ", "-", "é", ",", "http://", "l"}
	var texts []string
	var gen func(s string, n int)
	gen = func(s string, n int) {
		if strings.Contains(s, "alice") {
			texts = append(texts, s)
		}
		if n > 0 {
			for _, a := range alpha {
				gen(s+a, n-1)
			}
		}
	}
	gen("", r.Pick(4, 5))
	per := 100
	for i := 0; i < len(texts); i += per {
		r.World(fmt.Sprintf("highlight:%d", i), func(c *kit.Ctx, w *kit.World) {
			x := c26New(c, w, "default", "none", time.Hour)
			for _, s := range texts[i:min(i+per, len(texts))] {
				if c.Bad() {
					return
				}
				x.srv["n1"].Send(":bob!u@h PRIVMSG #c :" + s)
				w.Settle()
				got, _ := x.p.take()
				c.Check((len(got) == 2) == c26Highlight(s, "alice") && len(got)%2 == 0, "%q to a channel: notifications %s, highlight %v", s, kit.Q(got), c26Highlight(s, "alice"))
				for _, g := range got {
					c.Check(strings.HasSuffix(g, s), "%q to a channel: notification %q", s, g)
				}
				for _, cl := range x.cl {
					cl.Take()
				}
			}
		})
	}
	r.Bound("highlights: all %d texts containing the nickname over %d tokens to length %d", len(texts), len(alpha), r.Pick(4, 5))
}
