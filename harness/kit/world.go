package kit

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"codeberg.org/emersion/soju"
	"codeberg.org/emersion/soju/auth"
	"codeberg.org/emersion/soju/database"
	"gopkg.in/irc.v4"
)

// FakeAuth accepts exactly the passwords of its table (no bcrypt cost).
type FakeAuth struct{ Pass map[string]string }

func (a *FakeAuth) AuthPlain(ctx context.Context, db database.Database, username, password string) error {
	if want, ok := a.Pass[username]; ok && want == password && want != "" {
		return nil
	}
	return &auth.Error{InternalErr: errors.New("bad credentials"), ExternalMsg: "Invalid credentials"}
}

// keepDB is a database whose Close is a no-op, so that a world can restart the
// server on the same (in-memory) database.
type keepDB struct{ database.Database }

func (keepDB) Close() error { return nil }

type logSink struct {
	mu  sync.Mutex
	buf bytes.Buffer
}

func (l *logSink) Write(b []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.buf.Len() < 1<<20 {
		l.buf.Write(b)
	}
	return len(b), nil
}

func (l *logSink) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.buf.String()
}

// World is one bouncer with its environment, living in one synctest bubble.
type World struct {
	C       *Ctx
	DB      database.Database // the real database
	WrapDB  func(database.Database) database.Database
	Srv     *soju.Server
	Cfg     soju.Config
	Auth    *FakeAuth
	Log     *logSink
	Servers map[string]*UpServer // by dial address
	Dials   []Dial
	Clients []*Client
	Ln      *MemListener
	AdminLn *MemListener
	nport   int
	dirs    []string
	started bool
	OnStart func(*soju.Server)
	mu      sync.Mutex
}

// Dial records one outgoing connection attempt.
type Dial struct {
	At      time.Time
	Network string
	Addr    string
	Local   net.Addr
	Conn    *UpConn
}

func NewWorld(c *Ctx) *World {
	db, err := database.OpenTempSqliteDB()
	if err != nil {
		panic(fmt.Sprintf("harness: cannot open database: %v", err))
	}
	w := &World{
		C: c, DB: db,
		Auth:    &FakeAuth{Pass: map[string]string{}},
		Log:     &logSink{},
		Servers: map[string]*UpServer{},
	}
	w.Cfg = soju.Config{
		Hostname:        "bouncer",
		MaxUserNetworks: -1,
		MsgStoreDriver:  "memory",
		Auth:            &auth.Authenticator{Plain: w.Auth},
	}
	soju.VerifDial = w.dial
	// Avoid the key generation on each start.
	wp := &database.WebPushConfig{}
	wp.VAPIDKeys.Public = VapidPub
	wp.VAPIDKeys.Private = VapidPriv
	if err := db.StoreWebPushConfig(context.Background(), wp); err != nil {
		panic(err)
	}
	return w
}

// AddUser stores a user record; its password is its name.
func (w *World) AddUser(name string, f func(*database.User)) *database.User {
	u := database.NewUser(name)
	if f != nil {
		f(u)
	}
	if err := w.DB.StoreUser(context.Background(), u); err != nil {
		panic(err)
	}
	w.Auth.Pass[name] = name
	return u
}

// AddNetwork stores a network record for irc+insecure://<name>.test and
// registers a simulated server for it.
func (w *World) AddNetwork(u *database.User, name string, f func(*database.Network)) (*database.Network, *UpServer) {
	n := database.NewNetwork("irc+insecure://" + name + ".test")
	n.Name = name
	n.AutoAway = false
	if f != nil {
		f(n)
	}
	if err := w.DB.StoreNetwork(context.Background(), u.ID, n); err != nil {
		panic(err)
	}
	return n, w.Server(name + ".test:6667")
}

// Server returns (creating it if needed) the simulated server at an address.
func (w *World) Server(addr string) *UpServer {
	s := w.Servers[addr]
	if s == nil {
		s = NewUpServer(w, addr)
		w.Servers[addr] = s
	}
	return s
}

func (w *World) AddChannel(n *database.Network, name string, f func(*database.Channel)) *database.Channel {
	ch := &database.Channel{Name: name}
	if f != nil {
		f(ch)
	}
	if err := w.DB.StoreChannel(context.Background(), n.ID, ch); err != nil {
		panic(err)
	}
	return ch
}

// Start starts a server on the world's database and lets it settle.
func (w *World) Start() {
	var db database.Database = keepDB{w.DB}
	if w.WrapDB != nil {
		db = w.WrapDB(db)
	}
	srv := soju.NewServer(db)
	srv.Logger = soju.NewLogger(w.Log, os.Getenv("VERIF_DEBUG") != "")
	cfg := w.Cfg
	srv.SetConfig(&cfg)
	if w.OnStart != nil {
		w.OnStart(srv)
	}
	if err := srv.Start(); err != nil {
		panic(fmt.Sprintf("server start: %v", err))
	}
	w.Srv = srv
	w.Ln = NewMemListener()
	w.AdminLn = NewMemListener()
	go srv.Serve(w.Ln, srv.Handle)
	go srv.Serve(w.AdminLn, srv.HandleAdmin)
	w.started = true
	w.Settle()
}

// Shutdown stops the server and waits (in virtual time) until it is done.
func (w *World) Shutdown() {
	if !w.started {
		return
	}
	w.started = false
	done := make(chan struct{})
	go func() {
		w.Srv.Shutdown()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Minute):
		w.C.Violatef("server shutdown does not complete")
		return
	}
	synctest.Wait()
	w.pump()
}

// Restart cleanly stops the server and starts a new one on the same data.
func (w *World) Restart() {
	w.Shutdown()
	w.hangupAll()
	w.Clients = nil
	w.Start()
}

func (w *World) hangupAll() {
	for _, c := range w.Clients {
		c.c.Hangup()
	}
	for _, s := range w.Servers {
		for _, uc := range s.Conns {
			uc.c.Hangup()
		}
	}
	synctest.Wait()
}

// Close tears the world down so that the bubble can end.
func (w *World) Close() {
	w.Shutdown()
	for _, s := range w.Servers {
		s.Refuse = true
	}
	w.hangupAll()
	// let reconnect loops notice that they are stopped
	time.Sleep(15 * time.Minute)
	w.DB.Close()
	for _, d := range w.dirs {
		os.RemoveAll(d)
	}
	if os.Getenv("VERIF_SHOWLOG") != "" {
		fmt.Fprintln(os.Stderr, w.Log.String())
	}
	if log := w.Log.String(); strings.Contains(log, "panic serving") && !w.C.AllowPanic {
		w.C.Violatef("a worker of the bouncer panicked: %s", firstLines(log[strings.Index(log, "panic serving"):], 14))
	}
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func (w *World) dial(ctx context.Context, d *net.Dialer, network, addr string) (net.Conn, error) {
	if err := ctx.Err(); err != nil { // like net.Dialer
		return nil, err
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	rec := Dial{At: time.Now(), Network: network, Addr: addr, Local: d.LocalAddr}
	s := w.Servers[addr]
	if s == nil || s.Refuse {
		w.Dials = append(w.Dials, rec)
		return nil, errors.New("connection refused")
	}
	w.nport++
	c := NewMemConn(&net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 20000 + w.nport}, &net.TCPAddr{IP: net.IPv4(10, 9, 9, 9), Port: 6667})
	uc := &UpConn{S: s, c: c, At: time.Now()}
	s.Conns = append(s.Conns, uc)
	rec.Conn = uc
	w.Dials = append(w.Dials, rec)
	if s.Wrap != nil {
		return s.Wrap(c), nil
	}
	return c, nil
}

// pump lets the simulated servers process what they received; it reports
// whether anything was received.
func (w *World) pump() bool {
	any := false
	for _, c := range w.Clients {
		if c.fetch() {
			any = true
		}
	}
	addrs := make([]string, 0, len(w.Servers))
	for a := range w.Servers {
		addrs = append(addrs, a)
	}
	sort.Strings(addrs)
	for _, a := range addrs {
		s := w.Servers[a]
		w.mu.Lock()
		conns := append([]*UpConn(nil), s.Conns...)
		w.mu.Unlock()
		for _, uc := range conns {
			if uc.fetch() {
				any = true
			}
		}
	}
	return any
}

// Settle runs everything that can run without the clock moving.
func (w *World) Settle() {
	for i := 0; ; i++ {
		synctest.Wait()
		if !w.pump() {
			return
		}
		if i > 10000 {
			panic("harness: livelock in Settle")
		}
	}
}

// Sleep advances the virtual clock, keeping the simulated servers responsive.
func (w *World) Sleep(d time.Duration) {
	for d > 0 {
		step := d
		if step > 5*time.Second {
			step = 5 * time.Second
		}
		time.Sleep(step)
		w.Settle()
		d -= step
	}
}

// AwaitLive advances the clock until the server has a registered connection.
func (w *World) AwaitLive(s *UpServer, max time.Duration) bool {
	for d := time.Duration(0); d < max; d += 10 * time.Second {
		if s.Live() != nil {
			return true
		}
		time.Sleep(10 * time.Second)
		w.Settle()
	}
	return s.Live() != nil
}

// SleepCoarse advances the clock in one step.
func (w *World) SleepCoarse(d time.Duration) {
	time.Sleep(d)
	w.Settle()
}

// Client is a simulated IRC client of the bouncer.
type Client struct {
	W    *World
	Name string
	c    *MemConn
	buf  []byte
	All  []*irc.Message
	pos  int
	Raw  []string
	Caps map[string]bool
	// NoPong makes the client ignore the bouncer's PINGs; they are then kept
	// in Pings.
	NoPong bool
	Pings  []string
}

// ConnOpts describes how a client logs in.
type ConnOpts struct {
	User    string   // bouncer user
	Network string   // "" for none
	Client  string   // client name, "" for none
	Nick    string   // defaults to User
	Caps    []string // capabilities to request
	Pass    string   // defaults to User
}

// Dial opens a client connection without sending anything.
func (w *World) Dial(name string) *Client {
	w.nport++
	c := NewMemConn(&net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 6667}, &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 40000 + w.nport})
	cl := &Client{W: w, Name: name, c: c, Caps: map[string]bool{}}
	w.Clients = append(w.Clients, cl)
	w.Ln.Push(c)
	return cl
}

// DialAdmin opens a connection to the administration socket.
func (w *World) DialAdmin(name string) *Client {
	w.nport++
	c := NewMemConn(&net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 6667}, &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 40000 + w.nport})
	cl := &Client{W: w, Name: name, c: c, Caps: map[string]bool{}}
	w.Clients = append(w.Clients, cl)
	w.AdminLn.Push(c)
	return cl
}

// Connect opens, registers and settles a client. The registration burst is
// left in the client's unread messages.
func (w *World) Connect(name string, o ConnOpts) *Client {
	cl := w.Dial(name)
	if o.Nick == "" {
		o.Nick = o.User
	}
	if o.Pass == "" {
		o.Pass = o.User
	}
	username := o.User
	if o.Network != "" {
		username += "/" + o.Network
	}
	if o.Client != "" {
		username += "@" + o.Client
	}
	if len(o.Caps) > 0 {
		cl.Send("CAP LS 302")
		cl.Send("CAP REQ :" + strings.Join(o.Caps, " "))
		for _, c := range o.Caps {
			cl.Caps[c] = true
		}
	}
	cl.Send("PASS " + o.Pass)
	cl.Send("NICK " + o.Nick)
	cl.Send("USER " + username + " 0 * :" + o.Nick)
	if len(o.Caps) > 0 {
		cl.Send("CAP END")
	}
	w.Settle()
	return cl
}

// Send sends one raw line to the bouncer (no settling).
func (cl *Client) Send(line string) { cl.c.Feed(line + "\r\n") }

// Sendf is Send with formatting, followed by Settle.
func (cl *Client) Do(line string) []*irc.Message {
	cl.Send(line)
	cl.W.Settle()
	return cl.Take()
}

func (cl *Client) fetch() bool {
	b := cl.c.Output()
	if len(b) == 0 {
		return false
	}
	cl.buf = append(cl.buf, b...)
	for {
		i := bytes.IndexByte(cl.buf, '\n')
		if i < 0 {
			return true
		}
		line := strings.TrimRight(string(cl.buf[:i]), "\r")
		cl.buf = cl.buf[i+1:]
		m, err := irc.ParseMessage(line)
		cl.Raw = append(cl.Raw, line)
		if err != nil {
			cl.W.C.Violatef("client %s received an unparsable line %q: %v", cl.Name, line, err)
			m = &irc.Message{Command: "?"}
		}
		if m.Command == "PING" && len(m.Params) > 0 {
			if cl.NoPong {
				cl.Pings = append(cl.Pings, m.Params[0])
			} else {
				cl.c.Feed("PONG :" + m.Params[0] + "\r\n")
			}
			continue
		}
		cl.All = append(cl.All, m)
	}
}

// Take returns the messages received since the last Take.
func (cl *Client) Take() []*irc.Message {
	cl.fetch()
	m := cl.All[cl.pos:]
	cl.pos = len(cl.All)
	return m
}

// Peek returns unread messages without consuming them.
func (cl *Client) Peek() []*irc.Message { cl.fetch(); return cl.All[cl.pos:] }

// Quit hangs up and settles.
func (cl *Client) Quit() {
	cl.c.Hangup()
	cl.W.Settle()
	for i, c := range cl.W.Clients {
		if c == cl {
			cl.W.Clients = append(cl.W.Clients[:i:i], cl.W.Clients[i+1:]...)
			break
		}
	}
}

// Conn gives access to the raw connection.
func (cl *Client) Conn() *MemConn { return cl.c }

// Closed reports whether the bouncer closed the connection.
func (cl *Client) Closed() bool { return cl.c.Closed() }

// Registered reports whether the welcome numeric was seen.
func (cl *Client) Registered() bool {
	for _, m := range cl.All {
		if m.Command == "001" {
			return true
		}
	}
	return false
}

// TempDir returns a scratch directory removed when the world closes.
func (w *World) TempDir() string {
	dir, err := os.MkdirTemp("", "verif-world-")
	if err != nil {
		panic(err)
	}
	w.dirs = append(w.dirs, dir)
	return dir
}
