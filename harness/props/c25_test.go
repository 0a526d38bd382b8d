package props

import (
	"context"
	"crypto/sha1"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"codeberg.org/emersion/soju"
	"codeberg.org/emersion/soju/database"

	"sojuverif/kit"
)

// C25: life cycle of user accounts.

// c25DB is the real database with a point of control before each operation on
// a user's data.
type c25DB struct {
	database.Database
	mu    sync.Mutex
	armed bool
	n     int // operations since it is armed
	hold  int // the operation to hold, or -1
	panic int // the operation to crash in, or -1
	ch    chan struct{}
	ops   []string
	held  bool
}

func (g *c25DB) at(op string) {
	g.mu.Lock()
	if !g.armed {
		g.mu.Unlock()
		return
	}
	i := g.n
	g.n++
	g.ops = append(g.ops, op)
	hold, crash := i == g.hold, i == g.panic
	g.held = g.held || hold || crash
	g.mu.Unlock()
	if crash {
		panic("injected crash")
	}
	if hold {
		<-g.ch
	}
}

func (g *c25DB) arm(hold, crash int) {
	g.mu.Lock()
	g.armed, g.n, g.hold, g.panic = true, 0, hold, crash
	g.ch = make(chan struct{})
	g.mu.Unlock()
}

func (g *c25DB) release() {
	g.mu.Lock()
	if g.armed {
		g.armed = false
		close(g.ch)
	}
	g.mu.Unlock()
}

func (g *c25DB) StoreUser(ctx context.Context, u *database.User) error {
	if u.ID != 0 { // the server's lock is held when creating a user
		g.at("StoreUser")
	}
	return g.Database.StoreUser(ctx, u)
}

func (g *c25DB) DeleteUser(ctx context.Context, id int64) error {
	g.at("DeleteUser")
	return g.Database.DeleteUser(ctx, id)
}

func (g *c25DB) GetUser(ctx context.Context, name string) (*database.User, error) {
	g.at("GetUser")
	return g.Database.GetUser(ctx, name)
}

func (g *c25DB) ListNetworks(ctx context.Context, id int64) ([]database.Network, error) {
	g.at("ListNetworks")
	return g.Database.ListNetworks(ctx, id)
}

func (g *c25DB) ListChannels(ctx context.Context, id int64) ([]database.Channel, error) {
	g.at("ListChannels")
	return g.Database.ListChannels(ctx, id)
}

func (g *c25DB) StoreNetwork(ctx context.Context, id int64, n *database.Network) error {
	g.at("StoreNetwork")
	return g.Database.StoreNetwork(ctx, id, n)
}

func (g *c25DB) ListDeliveryReceipts(ctx context.Context, id int64) ([]database.DeliveryReceipt, error) {
	g.at("ListDeliveryReceipts")
	return g.Database.ListDeliveryReceipts(ctx, id)
}

func (g *c25DB) StoreClientDeliveryReceipts(ctx context.Context, id int64, client string, l []database.DeliveryReceipt) error {
	g.at("StoreClientDeliveryReceipts")
	return g.Database.StoreClientDeliveryReceipts(ctx, id, client, l)
}

func (g *c25DB) ListInactiveUsernames(ctx context.Context, limit time.Time) ([]string, error) {
	g.at("ListInactiveUsernames")
	return g.Database.ListInactiveUsernames(ctx, limit)
}

func (g *c25DB) GetMessageLastID(ctx context.Context, id int64, name string) (int64, error) {
	g.at("GetMessageLastID")
	return g.Database.GetMessageLastID(ctx, id, name)
}

type c25Conf struct {
	store  string
	onAuth bool // create and enable users on login
}

// c25World has the users boss (admin), zoe (unrelated) and alice (the subject).
type c25World struct {
	c                *kit.Ctx
	w                *kit.World
	g                *c25DB
	conf             c25Conf
	boss, adm, zoe   *kit.Client
	n1, n2, nz       *kit.UpServer
	clients          []*kit.Client // alice's, in order of attachment
	n                int
	exists, enabled  bool
	first            bool // n1 is configured
	hung             bool // n1 does not answer
	zconns, replies  int
	down             bool
	pending          []*c25Reply
	stored, expected int
}

type c25Reply struct {
	cl   *kit.Client
	from int
	what string
}

func c25New(c *kit.Ctx, w *kit.World, conf c25Conf, gate bool) *c25World {
	x := &c25World{c: c, w: w, conf: conf, exists: true, enabled: true, first: true}
	w.Cfg.MsgStoreDriver = conf.store
	if conf.store == "fs" {
		w.Cfg.MsgStorePath = w.TempDir()
	}
	w.Cfg.EnableUsersOnAuth = conf.onAuth
	w.Cfg.DisableInactiveUsersDelay = 24 * time.Hour
	w.AddUser("boss", func(u *database.User) { u.Admin = true })
	z := w.AddUser("zoe", nil)
	_, x.nz = w.AddNetwork(z, "nz", nil)
	a := w.AddUser("alice", nil)
	_, x.n1 = w.AddNetwork(a, "n1", nil)
	_, x.n2 = w.AddNetwork(a, "n2", nil)
	if gate {
		x.g = &c25DB{hold: -1, panic: -1}
		w.WrapDB = func(db database.Database) database.Database {
			x.g.Database = db
			return x.g
		}
	}
	w.Start()
	x.others()
	return x
}

// others attaches the clients of the other users.
func (x *c25World) others() {
	x.boss = x.w.Connect("boss", kit.ConnOpts{User: "boss"})
	x.adm = x.w.DialAdmin("adm")
	x.zoe = x.w.Connect("zoe", kit.ConnOpts{User: "zoe", Network: "nz"})
	x.w.Settle()
	x.zconns = len(x.nz.Conns)
	x.boss.Take()
	x.adm.Take()
	x.zoe.Take()
}

func (x *c25World) attach() *kit.Client {
	x.n++
	cl := x.w.Dial(fmt.Sprintf("alice%d", x.n))
	cl.Send("PASS alice")
	cl.Send("NICK alice")
	cl.Send(fmt.Sprintf("USER alice@c%d 0 * :alice", x.n))
	x.clients = append(x.clients, cl)
	return cl
}

// live is the last attached client which is still connected.
func (x *c25World) live() *kit.Client {
	for i := len(x.clients) - 1; i >= 0; i-- {
		if !x.clients[i].Closed() {
			return x.clients[i]
		}
	}
	return nil
}

func c25Hash(name string) string {
	h := sha1.Sum([]byte(name))
	return fmt.Sprintf("%x", h[:3])
}

var c25Cmds = map[string]string{
	"disable": "user update alice -enabled false",
	"enable":  "user update alice -enabled true",
	"delete":  "user delete alice " + c25Hash("alice"),
	"passwd":  "user update alice -disable-password",
	"create":  "user create -username alice -disable-password",
	"addnet":  "user run alice network create -addr irc+insecure://n2.test -name n2",
	"run":     "user run alice network status",
}

// issue sends an operation without waiting for it.
func (x *c25World) issue(op string, viaAdmin bool) {
	if cmd, ok := c25Cmds[op]; ok {
		cl, line := x.boss, "PRIVMSG BouncerServ :"+cmd
		if viaAdmin {
			cl, line = x.adm, "BOUNCERSERV :"+cmd
		}
		x.pending = append(x.pending, &c25Reply{cl, len(cl.All), op})
		cl.Send(line)
		return
	}
	switch op {
	case "attach":
		x.attach()
	case "quit":
		if cl := x.live(); cl != nil {
			cl.Send("QUIT :bye")
		}
	case "cut":
		if cl := x.live(); cl != nil {
			cl.Conn().Hangup()
		}
	case "nick":
		if cl := x.live(); cl != nil {
			x.n++
			cl.Send(fmt.Sprintf("PRIVMSG BouncerServ :user update -nick al%d", x.n))
		}
	case "realname":
		if cl := x.live(); cl != nil {
			x.n++
			cl.Send(fmt.Sprintf("PRIVMSG BouncerServ :user update -realname al%d", x.n))
		}
	case "selfdelete":
		if cl := x.live(); cl != nil {
			cl.Send("PRIVMSG BouncerServ :user delete alice " + c25Hash("alice"))
		}
	case "drop":
		x.n1.Drop()
	case "hang":
		x.n1.Silent = true
		x.n1.Drop()
	case "heal":
		x.n1.Silent = false
	case "talk":
		for _, s := range []*kit.UpServer{x.n1, x.n2} {
			if uc := s.Live(); uc != nil {
				uc.Send(":bob!b@b PRIVMSG " + uc.Nick + " :hi")
			}
		}
	}
}

// reply waits for the reply to a command of the administrator.
func (x *c25World) reply() string {
	cl := x.pending[len(x.pending)-1]
	x.pending = x.pending[:len(x.pending)-1]
	var t []string
	for _, m := range cl.cl.All[cl.from:] {
		switch m.Command {
		case "PRIVMSG", "FAIL", "BOUNCERSERV":
			t = append(t, m.Params[len(m.Params)-1])
		}
	}
	cl.cl.Take()
	return strings.Join(t, "\n")
}

func (x *c25World) record() *database.User {
	u, err := x.w.DB.GetUser(context.Background(), "alice")
	if err != nil {
		return nil
	}
	return u
}

// unaffected checks the other users.
func (x *c25World) unaffected() {
	for _, cl := range []*kit.Client{x.boss, x.zoe} {
		cl.Take()
		cl.Send("PING tok")
		x.w.Settle()
		x.c.Check(!cl.Closed() && len(kit.Select(cl.Take(), "PONG")) == 1, "the client of %s is not served", cl.Name)
	}
	x.c.Check(len(x.nz.Conns) == x.zconns && x.nz.Live() != nil, "the network of another user is affected")
}

// wait gives the networks of alice time to connect.
func (x *c25World) wait() {
	x.w.Settle()
	if !x.exists || !x.enabled {
		return
	}
	if x.first && !x.hung {
		x.c.Check(x.w.AwaitLive(x.n1, 13*time.Minute), "network 1 is not connected")
	}
	x.c.Check(x.w.AwaitLive(x.n2, 13*time.Minute), "network 2 is not connected")
}

// check compares with the model.
func (x *c25World) check(open []*kit.Client) {
	x.wait()
	on := x.exists && x.enabled
	want := map[*kit.Client]bool{}
	for _, cl := range open {
		want[cl] = true
	}
	for _, cl := range x.clients {
		x.c.Check(cl.Closed() != want[cl], "client %s closed: %v, want %v", cl.Name, cl.Closed(), !want[cl])
		if want[cl] && !cl.Closed() {
			cl.Take()
			cl.Send("PING tok")
			x.w.Settle()
			x.c.Check(len(kit.Select(cl.Take(), "PONG")) == 1, "client %s is not served", cl.Name)
		}
	}
	for i, s := range []*kit.UpServer{x.n1, x.n2} {
		n := s.OpenConns()
		switch {
		case !on || i == 0 && !x.first:
			x.c.Check(n == 0, "network %d has %d connections, want none", i+1, n)
		case i == 0 && x.hung:
			x.c.Check(n <= 1, "network 1 has %d connections", n)
		default:
			x.c.Check(n == 1, "network %d has %d connections, want one", i+1, n)
		}
	}
	u := x.record()
	x.c.Check((u != nil) == x.exists && (u == nil || u.Enabled == x.enabled), "the account is stored as %+v, want exists=%v enabled=%v", u, x.exists, x.enabled)
	x.unaffected()
}

// ---- sequences --------------------------------------------------------------

type c25State struct {
	exists, enabled, first, hung bool
	clients                      int
}

func c25Next(conf c25Conf, s c25State, op string) c25State {
	kick := func() { s.clients = 0 }
	switch op {
	case "attach":
		if conf.onAuth {
			if !s.exists {
				s.exists, s.first = true, false
			}
			s.enabled = true
		}
		if s.exists && s.enabled {
			s.clients++
		}
	case "quit":
		s.clients--
	case "disable", "idle":
		if s.exists {
			s.enabled = false
			kick()
		}
	case "enable":
		if s.exists {
			s.enabled = true
		}
	case "delete", "selfdelete":
		if s.exists {
			s.exists, s.enabled, s.first = false, false, false
			kick()
		}
	case "create":
		if !s.exists {
			s.exists, s.enabled = true, true
		}
	case "passwd":
		kick()
	case "restart":
		kick()
	case "hang":
		s.hung = true
	case "heal":
		s.hung = false
	}
	return s
}

func c25Enabled(conf c25Conf, s c25State) []string {
	l := []string{"attach", "disable", "enable", "delete", "create", "passwd", "restart"}
	if s.clients > 0 {
		l = append(l, "quit", "selfdelete", "nick", "realname")
	} else if s.exists && s.enabled {
		l = append(l, "idle")
	}
	if s.first && s.exists && s.enabled {
		if !s.hung {
			l = append(l, "drop", "hang")
		} else {
			l = append(l, "heal")
		}
	}
	return l
}

func c25Seq(c *kit.Ctx, w *kit.World, conf c25Conf, seq []string) {
	x := c25New(c, w, conf, false)
	st := c25State{exists: true, enabled: true, first: true}
	for i, op := range seq {
		c.Step(op)
		before := st
		st = c25Next(conf, st, op)
		x.exists, x.enabled, x.first, x.hung = st.exists, st.enabled, st.first, st.hung
		var open []*kit.Client
		for _, cl := range x.clients {
			if !cl.Closed() {
				open = append(open, cl)
			}
		}
		switch op {
		case "restart":
			w.Restart()
			x.clients = nil
			x.others()
		case "idle":
			for h := 0; h < 30; h++ {
				w.SleepCoarse(time.Hour)
			}
			x.boss.Take()
		default:
			x.issue(op, i%2 == 1)
			w.Settle()
			if _, ok := c25Cmds[op]; ok {
				r := x.reply()
				fails := op == "create" && before.exists || op != "create" && !before.exists
				bad := strings.Contains(r, "error") || strings.Contains(r, "unknown username") || strings.Contains(r, "already exists")
				c.Check(r != "" && bad == fails, "%s: the reply is %q", op, r)
			}
			if (op == "create" && !before.exists) || (op == "attach" && conf.onAuth && !before.exists) {
				x.issue("addnet", false)
				w.Settle()
				r := x.reply()
				c.Check(strings.Contains(r, "created network"), "network create: the reply is %q", r)
			}
		}
		switch {
		case st.clients == 0:
			open = nil
		case op == "attach":
			open = append(open, x.clients[len(x.clients)-1])
		case op == "quit":
			open = open[:len(open)-1]
		}
		x.check(open)
		if c.Bad() {
			return
		}
	}
	// nothing else happens later
	n := len(w.Dials)
	if !st.exists || !st.enabled {
		w.SleepCoarse(15 * time.Minute)
		c.Check(len(w.Dials) == n, "connection attempts for a disabled or deleted user")
	}
	x.final()
}

// final checks that the account works as its record tells.
func (x *c25World) final() {
	u := x.record()
	x.exists, x.enabled = u != nil, u != nil && u.Enabled
	if x.down || x.c.Bad() {
		return
	}
	on := x.exists && x.enabled
	cl := x.attach()
	x.w.Settle()
	x.w.Sleep(time.Second)
	welcomed := len(kit.Select(cl.All, "001")) == 1
	if x.conf.onAuth {
		x.c.Check(welcomed && !cl.Closed(), "cannot log in: %s", kit.Lines(cl.All))
		return
	}
	x.c.Check(welcomed == on && cl.Closed() == !on, "exists=%v enabled=%v, but log in: welcomed=%v closed=%v", x.exists, x.enabled, welcomed, cl.Closed())
	if on {
		cl.Take()
		cl.Send("PING tok")
		x.w.Settle()
		x.c.Check(len(kit.Select(cl.Take(), "PONG")) == 1, "a new client is not served")
		return
	}
	if x.exists {
		x.issue("enable", false)
	} else {
		x.issue("create", true)
	}
	x.w.Settle()
	r := x.reply()
	x.c.Check(strings.Contains(r, "updated user") || strings.Contains(r, "created user"), "cannot bring the user back: %q", r)
	cl = x.attach()
	x.w.Settle()
	x.c.Check(len(kit.Select(cl.All, "001")) == 1 && !cl.Closed(), "cannot log in after bringing the user back: %s", kit.Lines(cl.All))
}

// ---- overlapping operations -------------------------------------------------

var c25Ops = []string{"attach", "quit", "cut", "disable", "enable", "delete", "create", "passwd", "nick", "realname", "selfdelete", "run", "drop", "talk", "shutdown"}

// c25Overlap starts the operation a, holds it before its k-th access to the
// database, starts the others meanwhile, and lets everything go on.
func c25Overlap(c *kit.Ctx, w *kit.World, conf c25Conf, a string, k int, others []string, delay time.Duration, init string) {
	x := c25New(c, w, conf, true)
	x.attach()
	w.Settle()
	if init == "disabled" {
		x.issue("disable", false)
		w.Settle()
		x.reply()
	}
	var done <-chan struct{}
	issue := func(op string, adm bool) {
		c.Step(op)
		if op == "shutdown" {
			if done == nil {
				done = w.ShutdownAsync()
			}
			return
		}
		if done == nil || op != "attach" { // not listening any more
			x.issue(op, adm)
		}
	}
	x.g.arm(k, -1)
	issue(a, false)
	w.Settle()
	if !x.g.held {
		c.Step("(not held)")
	} else {
		c.Step("held before " + x.g.ops[k])
	}
	for i, op := range others {
		issue(op, i%2 == 0)
		w.Settle()
	}
	w.Sleep(delay)
	x.g.release()
	w.Settle()
	w.Sleep(time.Minute)
	x.finish(done)
}

// finish checks the state after overlapping operations.
func (x *c25World) finish(done <-chan struct{}) {
	c, w := x.c, x.w
	if done != nil {
		select {
		case <-done:
		case <-time.After(5 * time.Minute):
			c.Violatef("the shutdown does not complete")
			return
		}
		w.Settle()
		for _, cl := range append([]*kit.Client{x.boss, x.zoe}, x.clients...) {
			c.Check(cl.Closed(), "client %s is connected after the shutdown", cl.Name)
		}
		for _, s := range []*kit.UpServer{x.n1, x.n2, x.nz} {
			c.Check(s.OpenConns() == 0, "%s is connected after the shutdown", s.Addr)
		}
		n := len(w.Dials)
		w.SleepCoarse(15 * time.Minute)
		c.Check(len(w.Dials) == n, "connection attempt after the shutdown")
		if c.Bad() {
			return
		}
		w.Start()
		x.clients = nil
		x.others()
		x.pending = nil
	}
	x.unaffected()
	for len(x.pending) > 0 {
		op := x.pending[len(x.pending)-1].what
		r := x.reply()
		c.Check(r != "", "no reply to %s", op)
	}
	u := x.record()
	x.exists, x.enabled = u != nil, u != nil && u.Enabled
	nets := map[string]bool{}
	if u != nil {
		l, _ := w.DB.ListNetworks(context.Background(), u.ID)
		for _, n := range l {
			nets[n.Name] = true
		}
	}
	for _, s := range []*kit.UpServer{x.n1, x.n2} {
		on := x.exists && x.enabled && nets[s.Name[:2]]
		if on {
			c.Check(w.AwaitLive(s, 13*time.Minute), "%s is not connected (exists=%v enabled=%v)", s.Name, x.exists, x.enabled)
			c.Check(s.OpenConns() == 1, "%s has %d connections", s.Name, s.OpenConns())
		} else {
			c.Check(s.OpenConns() == 0, "%s has %d connections (exists=%v enabled=%v)", s.Name, s.OpenConns(), x.exists, x.enabled)
		}
	}
	for _, cl := range x.clients {
		if cl.Closed() {
			continue
		}
		cl.Take()
		cl.Send("PING tok")
		w.Settle()
		c.Check(x.exists && x.enabled, "client %s of a disabled or deleted user is connected", cl.Name)
		c.Check(len(kit.Select(cl.Take(), "PONG")) == 1, "client %s is connected but not served", cl.Name)
	}
	x.final()
}

// c25Crowd has many clients connect while alice's worker is busy.
func c25Crowd(c *kit.Ctx, w *kit.World, conf c25Conf, kind, op string) {
	x := c25New(c, w, conf, true)
	x.attach()
	w.Settle()
	x.g.arm(0, -1)
	x.issue("nick", false)
	w.Settle()
	if !c.Check(x.g.held, "harness: the worker is not busy") {
		return
	}
	switch kind {
	case "clients":
		for i := 0; i < 70; i++ {
			x.attach()
		}
	case "unfinished":
		for i := 0; i < 70; i++ {
			x.attach().Conn().Hangup()
		}
	case "messages":
		cl := x.live()
		for i := 0; i < 100; i++ {
			cl.Send("PRIVMSG bob :hi")
		}
	case "server":
		uc := x.n1.Live()
		for i := 0; i < 100; i++ {
			uc.Send(":bob!b@b PRIVMSG " + uc.Nick + " :hi")
		}
	}
	w.Settle()
	c.Step(kind)
	c.Step(op)
	var done <-chan struct{}
	switch op {
	case "":
	case "shutdown":
		done = w.ShutdownAsync()
	default:
		x.issue(op, true)
	}
	w.Settle()
	x.g.release()
	w.Settle()
	w.Sleep(2 * time.Minute)
	if op == "" && kind == "clients" {
		for _, cl := range x.clients {
			c.Check(!cl.Closed() && len(kit.Select(cl.All, "001")) == 1, "client %s: closed=%v", cl.Name, cl.Closed())
		}
	}
	x.finish(done)
}

// c25Crash makes the worker of alice crash.
func c25Crash(c *kit.Ctx, w *kit.World, conf c25Conf, op string, k int) {
	x := c25New(c, w, conf, true)
	x.attach()
	w.Settle()
	if len(x.n1.Conns) > 0 {
		x.n1.Last().Send(":bob!b@b PRIVMSG alice :hi")
		w.Settle()
	}
	x.g.arm(-1, k)
	c.AllowPanic = true
	x.issue(op, true)
	w.Settle()
	crashed := x.g.held && strings.Contains(w.Log.String(), "panic serving user")
	c.Step(fmt.Sprintf("%s: crash %d: %v", op, k, crashed))
	x.g.release()
	w.Sleep(time.Minute)
	if crashed {
		for _, cl := range x.clients {
			c.Check(cl.Closed(), "client %s is connected after the crash", cl.Name)
		}
		c.Check(x.n1.OpenConns() == 0 && x.n2.OpenConns() == 0, "networks are connected after the crash")
		n := len(w.Dials)
		w.SleepCoarse(15 * time.Minute)
		c.Check(len(w.Dials) == n, "connection attempt after the crash")
		x.unaffected()
		w.Restart()
		x.clients = nil
		x.others()
		x.pending = nil
		x.finish(nil)
		return
	}
	x.unaffected()
}

// c25Reg has a client in the middle of its registration when the server stops.
func c25Reg(c *kit.Ctx, w *kit.World, conf c25Conf, sent int) {
	x := c25New(c, w, conf, false)
	cl := w.Dial("half")
	lines := []string{"CAP LS 302", "CAP REQ :sasl", "PASS alice", "NICK alice", "USER alice 0 * :alice", "CAP END"}
	for _, l := range lines[:sent] {
		cl.Send(l)
	}
	w.Settle()
	w.Shutdown()
	for _, l := range lines[sent:] {
		cl.Send(l)
	}
	w.Settle()
	w.Sleep(40 * time.Second)
	welcomed := len(kit.Select(cl.All, "001")) > 0
	c.Check(cl.Closed(), "the client is connected after the shutdown")
	c.Check(!welcomed || sent == len(lines), "the client is welcomed after the shutdown")
	c.Check(x.n1.OpenConns() == 0 && x.nz.OpenConns() == 0, "networks are connected")
}

var _ = soju.NewServer

// ---- inactivity ---------------------------------------------------------------

// c25Idle is what decides whether alice counts as inactive. Times are in
// minutes since the start of the world.
type c25Idle struct {
	now, tick, last int
	own, imp        int // open sessions of alice, and of an administrator acting as alice
	off             bool
}

var c25Waits = map[string]int{"wait1h": 60, "wait9h": 9 * 60, "wait22h": 22 * 60}

func c25IdleNext(s c25Idle, a string) c25Idle {
	s.now++ // every action takes a minute
	switch a {
	case "in":
		s.own++
		s.last = s.now
	case "out":
		s.own--
		s.last = s.now
	case "impin":
		s.imp++
	case "impout":
		s.imp--
	case "restart":
		if s.own > 0 {
			s.last = s.now
		}
		s.own, s.imp, s.tick = 0, 0, s.now
	case "enable":
		s.off = false
		s.last = s.now
	default:
		for end := s.now + c25Waits[a] - 1; s.now < end; s.now++ {
			s = s.check()
		}
	}
	return s.check()
}

// check is what happens every four hours.
func (s c25Idle) check() c25Idle {
	if (s.now-s.tick)%240 == 0 && s.now > s.tick && s.own+s.imp == 0 && s.now-s.last > 24*60 {
		s.off = true
	}
	return s
}

func c25IdleEnabled(s c25Idle) []string {
	l := []string{"wait1h", "wait9h", "wait22h", "restart"}
	if !s.off && s.own+s.imp < 2 {
		l = append(l, "in", "impin")
	}
	if s.own > 0 {
		l = append(l, "out")
	}
	if s.imp > 0 {
		l = append(l, "impout")
	}
	return l
}

func c25IdleExec(r *kit.Run, key string, seq []string) {
	r.World(key, func(c *kit.Ctx, w *kit.World) {
		w.Cfg.DisableInactiveUsersDelay = 24 * time.Hour
		w.AddUser("boss", func(u *database.User) { u.Admin = true })
		a := w.AddUser("alice", nil)
		_, srv := w.AddNetwork(a, "net", nil)
		w.Start()
		w.Connect("boss", kit.ConnOpts{User: "boss"})
		start := time.Now()
		w.SleepCoarse(30 * time.Second) // apart from the bouncer's own ticks
		start = start.Add(30 * time.Second)
		own := w.Connect("a0", kit.ConnOpts{User: "alice"})
		own.Quit()
		st := c25Idle{}
		var in, imp []*kit.Client
		for _, act := range seq {
			c.Step(act)
			st = c25IdleNext(st, act)
			until := start.Add(time.Duration(st.now) * time.Minute)
			switch act {
			case "in", "impin", "restart":
				w.SleepCoarse(time.Until(until))
			}
			switch act {
			case "in":
				cl := w.Connect("a", kit.ConnOpts{User: "alice", Network: "net"})
				c.Check(cl.Registered(), "cannot log in: %s", kit.Q(cl.Raw))
				in = append(in, cl)
			case "impin":
				cl := w.Dial("root")
				for _, l := range []string{"CAP REQ :sasl", "NICK x", "USER x 0 * :x", "AUTHENTICATE PLAIN", "AUTHENTICATE " + b64("alice/net\x00boss\x00boss"), "CAP END"} {
					cl.Send(l)
				}
				w.Settle()
				c.Check(cl.Registered(), "the administrator cannot act as the user: %s", kit.Q(cl.Raw))
				imp = append(imp, cl)
			case "out":
				w.SleepCoarse(time.Until(until))
				in[0].Quit()
				in = in[1:]
			case "impout":
				w.SleepCoarse(time.Until(until))
				imp[0].Conn().Hangup()
				imp = imp[1:]
			case "restart":
				w.Shutdown()
				w.SleepCoarse(0)
				w.Restart()
				w.Connect("boss", kit.ConnOpts{User: "boss"}) // or it becomes inactive as well
				start = time.Now().Add(30*time.Second - time.Duration(st.now)*time.Minute)
				w.SleepCoarse(30 * time.Second)
				in, imp = nil, nil
			default:
				w.SleepCoarse(time.Until(until))
			}
			w.Settle()
			u, err := w.DB.GetUser(context.Background(), "alice")
			if !c.Check(err == nil, "GetUser: %v", err) {
				return
			}
			c.Check(u.Enabled == !st.off, "no session of the user for %d minutes, %d own and %d impersonated sessions are open: enabled=%v, want %v", st.now-st.last, st.own, st.imp, u.Enabled, !st.off)
			c.Check((srv.OpenConns() == 0) == st.off, "enabled=%v, but %d upstream connections", !st.off, srv.OpenConns())
			for _, cl := range append(append([]*kit.Client{}, in...), imp...) {
				c.Check(!cl.Closed(), "a session was closed")
			}
			b, err := w.DB.GetUser(context.Background(), "boss")
			c.Check(err == nil && b != nil, "GetUser: %v", err)
		}
	})
}

func TestC25(t *testing.T) {
	r := kit.Start(t, "C25")
	r.Tree("idle", r.Pick(5, 6), func(seq []string) []string {
		var s c25Idle
		for _, a := range seq {
			s = c25IdleNext(s, a)
		}
		return c25IdleEnabled(s)
	}, func(key string, seq []string) { c25IdleExec(r, key, seq) })
	confs := []c25Conf{{"memory", false}, {"db", true}, {"fs", false}}
	for i, conf := range confs {
		conf := conf
		depth := r.Pick(2, 3)
		if i == 0 {
			depth = r.Pick(4, 5)
		} else if i == 1 {
			depth = r.Pick(3, 4)
		}
		state := func(seq []string) c25State {
			st := c25State{exists: true, enabled: true, first: true}
			for _, op := range seq {
				st = c25Next(conf, st, op)
			}
			return st
		}
		r.Tree(fmt.Sprintf("seq-%s,%v", conf.store, conf.onAuth), depth, func(seq []string) []string {
			return c25Enabled(conf, state(seq))
		}, func(key string, seq []string) {
			r.World(key, func(c *kit.Ctx, w *kit.World) { c25Seq(c, w, conf, seq) })
		})
	}
	for _, conf := range []c25Conf{{"db", false}, {"memory", true}} {
		for _, init := range []string{"enabled", "disabled"} {
			for _, a := range c25Ops {
				for k := 0; k < r.Pick(4, 8); k++ {
					for _, b := range c25Ops {
						for _, delay := range []time.Duration{time.Second, 15 * time.Second} {
							conf, init, a, k, b, delay := conf, init, a, k, b, delay
							r.World(fmt.Sprintf("overlap:%s,%v,%s,%s,%d,%s,%v", conf.store, conf.onAuth, init, a, k, b, delay), func(c *kit.Ctx, w *kit.World) {
								c25Overlap(c, w, conf, a, k, []string{b}, delay, init)
							})
							if r.Thorough() {
								for _, d := range c25Ops {
									d := d
									r.World(fmt.Sprintf("overlap:%s,%v,%s,%s,%d,%s+%s,%v", conf.store, conf.onAuth, init, a, k, b, d, delay), func(c *kit.Ctx, w *kit.World) {
										c25Overlap(c, w, conf, a, k, []string{b, d}, delay, init)
									})
								}
							}
						}
					}
				}
			}
		}
	}
	for _, store := range []string{"memory", "db"} {
		conf := c25Conf{store, false}
		for _, kind := range []string{"clients", "unfinished", "messages", "server"} {
			for _, op := range []string{"", "shutdown", "delete", "disable", "passwd", "run"} {
				kind, op := kind, op
				r.World("crowd:"+store+","+kind+","+op, func(c *kit.Ctx, w *kit.World) { c25Crowd(c, w, conf, kind, op) })
			}
		}
		for _, op := range []string{"attach", "quit", "nick", "disable", "passwd", "run", "addnet"} {
			for k := 0; k < 4; k++ {
				op, k := op, k
				r.World(fmt.Sprintf("crash:%s,%s,%d", store, op, k), func(c *kit.Ctx, w *kit.World) { c25Crash(c, w, conf, op, k) })
			}
		}
		for sent := 0; sent <= 6; sent++ {
			sent := sent
			r.World(fmt.Sprintf("registering:%s,%d", store, sent), func(c *kit.Ctx, w *kit.World) { c25Reg(c, w, conf, sent) })
		}
	}
}
