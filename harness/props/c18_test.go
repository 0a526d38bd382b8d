package props

import (
	"context"
	"database/sql"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"codeberg.org/emersion/soju/database"
	"gopkg.in/irc.v4"

	"sojuverif/kit"
)

// C18: stored data reads back exactly as written, and deletions remove
// everything.

var c18Ctx = context.Background()

// ---- snapshots -------------------------------------------------------------

// c18Snap reads everything back through the interface, as a canonical string.
// IDs are included: they identify entities.
type c18Tree struct {
	Users   []c18User
	Configs []string
	Stats   [3]int64
}

type c18User struct {
	U    database.User
	Nets []c18Net
	Subs []c18Sub
}

type c18Net struct {
	N     database.Network
	Chans []database.Channel
	Rcpts []c18Rcpt
	Reads map[string]string
	Subs  []c18Sub
	Msgs  map[string][]string
}

type c18Rcpt struct{ Target, Client, ID string }

type c18Sub struct {
	ID                            int64
	Endpoint, Auth, P256DH, VAPID string
}

var c18Targets = []string{"#a", "#b", "bob"}

func c18Subs(c *kit.Ctx, db database.Database, uid, nid int64) (out []c18Sub) {
	subs, err := db.ListWebPushSubscriptions(c18Ctx, uid, nid)
	c.Check(err == nil, "ListWebPushSubscriptions: %v", err)
	for _, s := range subs {
		c.Check(!s.CreatedAt.IsZero() && !s.UpdatedAt.IsZero() && !s.UpdatedAt.Before(s.CreatedAt), "subscription times %v, %v", s.CreatedAt, s.UpdatedAt)
		out = append(out, c18Sub{s.ID, s.Endpoint, s.Keys.Auth, s.Keys.P256DH, s.Keys.VAPID})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return
}

func c18NormNet(n *database.Network) {
	if len(n.ConnectCommands) == 0 {
		n.ConnectCommands = nil
	}
	if len(n.SASL.External.CertBlob) == 0 {
		n.SASL.External.CertBlob = nil
	}
	if len(n.SASL.External.PrivKeyBlob) == 0 {
		n.SASL.External.PrivKeyBlob = nil
	}
}

func c18Read(c *kit.Ctx, db database.Database) *c18Tree {
	t := &c18Tree{}
	users, err := db.ListUsers(c18Ctx)
	c.Check(err == nil, "ListUsers: %v", err)
	sort.Slice(users, func(i, j int) bool { return users[i].ID < users[j].ID })
	for _, u := range users {
		one, err := db.GetUser(c18Ctx, u.Username)
		c.Check(err == nil && *one == u, "GetUser(%q) returns %+v, %v; listed as %+v", u.Username, one, err, u)
		cu := c18User{U: u, Subs: c18Subs(c, db, u.ID, 0)}
		nets, err := db.ListNetworks(c18Ctx, u.ID)
		c.Check(err == nil, "ListNetworks: %v", err)
		sort.Slice(nets, func(i, j int) bool { return nets[i].ID < nets[j].ID })
		for _, n := range nets {
			c18NormNet(&n)
			cn := c18Net{N: n, Reads: map[string]string{}, Msgs: map[string][]string{}, Subs: c18Subs(c, db, u.ID, n.ID)}
			cn.Chans, err = db.ListChannels(c18Ctx, n.ID)
			c.Check(err == nil, "ListChannels: %v", err)
			sort.Slice(cn.Chans, func(i, j int) bool { return cn.Chans[i].ID < cn.Chans[j].ID })
			rc, err := db.ListDeliveryReceipts(c18Ctx, n.ID)
			c.Check(err == nil, "ListDeliveryReceipts: %v", err)
			for _, r := range rc {
				cn.Rcpts = append(cn.Rcpts, c18Rcpt{r.Target, r.Client, r.InternalMsgID})
			}
			sort.Slice(cn.Rcpts, func(i, j int) bool { return fmt.Sprint(cn.Rcpts[i]) < fmt.Sprint(cn.Rcpts[j]) })
			for _, tg := range c18Targets {
				r, err := db.GetReadReceipt(c18Ctx, n.ID, tg)
				c.Check(err == nil, "GetReadReceipt: %v", err)
				if r != nil {
					c.Check(r.Target == tg && r.ID != 0, "read receipt %+v for %s", r, tg)
					cn.Reads[tg] = r.Timestamp.UTC().Format(time.RFC3339Nano)
				}
				msgs, err := db.ListMessages(c18Ctx, n.ID, tg, &database.MessageOptions{Limit: 1000, Events: true})
				c.Check(err == nil, "ListMessages: %v", err)
				for _, m := range msgs {
					cn.Msgs[tg] = append(cn.Msgs[tg], m.String())
				}
				// the search index agrees
				for _, w := range []string{"alpha", "beta"} {
					found, err := db.ListMessages(c18Ctx, n.ID, tg, &database.MessageOptions{Limit: 1000, Text: w})
					c.Check(err == nil, "ListMessages: %v", err)
					want := 0
					for _, m := range msgs {
						if strings.Contains(m.String(), w) {
							want++
						}
					}
					c.Check(len(found) == want, "searching %q in %s finds %d messages, expected %d", w, tg, len(found), want)
				}
			}
			cu.Nets = append(cu.Nets, cn)
		}
		t.Users = append(t.Users, cu)
	}
	cfgs, err := db.ListWebPushConfigs(c18Ctx)
	c.Check(err == nil, "ListWebPushConfigs: %v", err)
	for _, cf := range cfgs {
		t.Configs = append(t.Configs, fmt.Sprint(cf))
	}
	sort.Strings(t.Configs)
	st, err := db.Stats(c18Ctx)
	c.Check(err == nil, "Stats: %v", err)
	if st != nil {
		t.Stats = [3]int64{st.Users, st.Networks, st.Channels}
	}
	return t
}

func (t *c18Tree) String() string {
	b, _ := json.Marshal(t)
	return strings.NewReplacer(":[]", ":null", ":{}", ":null").Replace(string(b))
}

func (t *c18Tree) clone() *c18Tree {
	var n c18Tree
	b, _ := json.Marshal(t)
	json.Unmarshal(b, &n)
	for i := range n.Users {
		n.Users[i].U.DownstreamInteractedAt = n.Users[i].U.DownstreamInteractedAt.UTC()
	}
	return &n
}

func (t *c18Tree) user(name string) *c18User {
	for i := range t.Users {
		if t.Users[i].U.Username == name {
			return &t.Users[i]
		}
	}
	return nil
}

func (u *c18User) net(addr string) *c18Net {
	if u == nil {
		return nil
	}
	for i := range u.Nets {
		if u.Nets[i].N.Addr == addr {
			return &u.Nets[i]
		}
	}
	return nil
}

func (t *c18Tree) fix() {
	t.Stats = [3]int64{int64(len(t.Users)), 0, 0}
	for _, u := range t.Users {
		t.Stats[1] += int64(len(u.Nets))
		for _, n := range u.Nets {
			t.Stats[2] += int64(len(n.Chans))
		}
	}
}

// ---- operations --------------------------------------------------------------

// An operation acts on the database; its effect on the reference tree is
// computed by the same code path on plain records. Entities are named by the
// user name (u, v), the network address (p, q) and the channel name.
type c18Op struct {
	name string
	ok   func(t *c18Tree) bool
	// run performs it; on success IDs assigned by the database are put into the
	// records, from where next takes them.
	run  func(db database.Database, t *c18Tree) (any, error)
	next func(t *c18Tree, res any)
	fail bool // has to be refused
}

func c18Time(i int) time.Time {
	return time.Date(2020, 1, 2, 3, 4, 5+i, 678000000, time.UTC)
}

func c18Ops() []c18Op {
	var ops []c18Op
	add := func(o c18Op) { ops = append(ops, o) }
	for _, un := range []string{"u", "v"} {
		add(c18Op{name: "user+" + un,
			ok: func(t *c18Tree) bool { return t.user(un) == nil },
			run: func(db database.Database, t *c18Tree) (any, error) {
				u := database.NewUser(un)
				u.Password = "pw-" + un
				u.Nick, u.Realname = un+"nick", "Real "+un
				err := db.StoreUser(c18Ctx, u)
				return u, err
			},
			next: func(t *c18Tree, res any) {
				u := *res.(*database.User)
				t.Users = append(t.Users, c18User{U: u})
				sort.Slice(t.Users, func(i, j int) bool { return t.Users[i].U.ID < t.Users[j].U.ID })
			}})
		add(c18Op{name: "user=" + un,
			ok: func(t *c18Tree) bool { return t.user(un) != nil },
			run: func(db database.Database, t *c18Tree) (any, error) {
				u := t.user(un).U
				u.Admin = !u.Admin
				u.Nick = ""
				u.MaxNetworks = 3
				u.DownstreamInteractedAt = c18Time(1)
				err := db.StoreUser(c18Ctx, &u)
				return &u, err
			},
			next: func(t *c18Tree, res any) { t.user(un).U = *res.(*database.User) }})
		add(c18Op{name: "user-" + un,
			ok: func(t *c18Tree) bool { return t.user(un) != nil },
			run: func(db database.Database, t *c18Tree) (any, error) {
				return nil, db.DeleteUser(c18Ctx, t.user(un).U.ID)
			},
			next: func(t *c18Tree, res any) {
				for i := range t.Users {
					if t.Users[i].U.Username == un {
						t.Users = append(t.Users[:i:i], t.Users[i+1:]...)
						return
					}
				}
			}})
		add(c18Op{name: "usersub" + un,
			ok: func(t *c18Tree) bool { return t.user(un) != nil && len(t.user(un).Subs) == 0 },
			run: func(db database.Database, t *c18Tree) (any, error) {
				s := &database.WebPushSubscription{Endpoint: "https://push/user"}
				s.Keys.Auth, s.Keys.P256DH, s.Keys.VAPID = "A"+un, "B"+un, "C"+un
				err := db.StoreWebPushSubscription(c18Ctx, t.user(un).U.ID, 0, s)
				return s, err
			},
			next: func(t *c18Tree, res any) {
				s := res.(*database.WebPushSubscription)
				t.user(un).Subs = append(t.user(un).Subs, c18Sub{s.ID, s.Endpoint, s.Keys.Auth, s.Keys.P256DH, s.Keys.VAPID})
			}})
		for _, ad := range []string{"p", "q"} {
			if un == "v" && ad == "q" {
				continue
			}
			id := un + ad
			has := func(t *c18Tree) bool { return t.user(un).net(ad) != nil }
			get := func(t *c18Tree) *c18Net { return t.user(un).net(ad) }
			add(c18Op{name: "net+" + id,
				ok: func(t *c18Tree) bool { return t.user(un) != nil && !has(t) },
				run: func(db database.Database, t *c18Tree) (any, error) {
					n := database.NewNetwork(ad)
					n.Name = "name-" + ad
					n.ConnectCommands = []string{"A b", "C :d e"}
					n.SASL.Mechanism = "PLAIN"
					n.SASL.Plain.Username, n.SASL.Plain.Password = "su", "sp"
					err := db.StoreNetwork(c18Ctx, t.user(un).U.ID, n)
					return n, err
				},
				next: func(t *c18Tree, res any) {
					u := t.user(un)
					u.Nets = append(u.Nets, c18Net{N: *res.(*database.Network), Reads: map[string]string{}, Msgs: map[string][]string{}})
					sort.Slice(u.Nets, func(i, j int) bool { return u.Nets[i].N.ID < u.Nets[j].N.ID })
				}})
			if un == "u" && ad == "q" {
				// the same name or address and nickname twice
				for _, kind := range []string{"name", "addr"} {
					add(c18Op{name: "netdup" + kind, fail: true,
						ok: func(t *c18Tree) bool { return t.user("u").net("p") != nil },
						run: func(db database.Database, t *c18Tree) (any, error) {
							n := database.NewNetwork("other")
							n.Name = "name-p"
							if kind == "addr" {
								n.Name, n.Addr, n.Nick = "free", "p", "nick2"
								m := t.user("u").net("p").N
								m.Nick = "nick2"
								if err := db.StoreNetwork(c18Ctx, t.user("u").U.ID, &m); err != nil {
									return nil, err
								}
								defer func() {
									m.Nick = t.user("u").net("p").N.Nick
									db.StoreNetwork(c18Ctx, t.user("u").U.ID, &m)
								}()
							}
							return nil, db.StoreNetwork(c18Ctx, t.user("u").U.ID, n)
						}})
				}
			}
			add(c18Op{name: "net=" + id, ok: has,
				run: func(db database.Database, t *c18Tree) (any, error) {
					n := get(t).N
					n.Nick, n.Pass, n.Enabled = "nn", "pp", false
					n.ConnectCommands = nil
					n.SASL = database.SASL{Mechanism: "EXTERNAL"}
					n.SASL.External.CertBlob, n.SASL.External.PrivKeyBlob = []byte{1, 0, 2}, []byte{3, 4}
					err := db.StoreNetwork(c18Ctx, t.user(un).U.ID, &n)
					return &n, err
				},
				next: func(t *c18Tree, res any) { get(t).N = *res.(*database.Network) }})
			add(c18Op{name: "net-" + id, ok: has,
				run: func(db database.Database, t *c18Tree) (any, error) {
					return nil, db.DeleteNetwork(c18Ctx, get(t).N.ID)
				},
				next: func(t *c18Tree, res any) {
					u := t.user(un)
					for i := range u.Nets {
						if u.Nets[i].N.Addr == ad {
							u.Nets = append(u.Nets[:i:i], u.Nets[i+1:]...)
							return
						}
					}
				}})
			hasCh := func(t *c18Tree) bool { return has(t) && len(get(t).Chans) > 0 }
			add(c18Op{name: "ch+" + id,
				ok: func(t *c18Tree) bool { return has(t) && len(get(t).Chans) == 0 },
				run: func(db database.Database, t *c18Tree) (any, error) {
					ch := &database.Channel{Name: "#a", Key: "key", Detached: true, DetachedInternalMsgID: "mid", RelayDetached: database.FilterHighlight, DetachAfter: 90 * time.Second}
					err := db.StoreChannel(c18Ctx, get(t).N.ID, ch)
					return ch, err
				},
				next: func(t *c18Tree, res any) { n := get(t); n.Chans = append(n.Chans, *res.(*database.Channel)) }})
			add(c18Op{name: "ch=" + id, ok: hasCh,
				run: func(db database.Database, t *c18Tree) (any, error) {
					ch := get(t).Chans[0]
					ch.Key, ch.Detached, ch.DetachedInternalMsgID, ch.DetachOn, ch.ReattachOn = "", false, "", database.FilterMessage, database.FilterNone
					err := db.StoreChannel(c18Ctx, get(t).N.ID, &ch)
					return &ch, err
				},
				next: func(t *c18Tree, res any) { get(t).Chans[0] = *res.(*database.Channel) }})
			add(c18Op{name: "ch-" + id, ok: hasCh,
				run: func(db database.Database, t *c18Tree) (any, error) {
					return nil, db.DeleteChannel(c18Ctx, get(t).Chans[0].ID)
				},
				next: func(t *c18Tree, res any) { get(t).Chans = nil }})
			if id == "up" {
				add(c18Op{name: "chdup" + id, ok: hasCh, fail: true,
					run: func(db database.Database, t *c18Tree) (any, error) {
						return nil, db.StoreChannel(c18Ctx, get(t).N.ID, &database.Channel{Name: "#a"})
					}})
			}
			for i, client := range []string{"", "phone"} {
				for j, set := range [][]string{{"#a", "bob"}, {"#b"}, {}} {
					if id != "up" && (i != j || j == 2) {
						continue
					}
					add(c18Op{name: fmt.Sprintf("rcpt%s%d%d", id, i, j), ok: has,
						run: func(db database.Database, t *c18Tree) (any, error) {
							var l []database.DeliveryReceipt
							for _, tg := range set {
								l = append(l, database.DeliveryReceipt{Target: tg, InternalMsgID: "m" + client + tg})
							}
							return nil, db.StoreClientDeliveryReceipts(c18Ctx, get(t).N.ID, client, l)
						},
						next: func(t *c18Tree, res any) {
							n := get(t)
							var l []c18Rcpt
							for _, r := range n.Rcpts {
								if r.Client != client {
									l = append(l, r)
								}
							}
							for _, tg := range set {
								l = append(l, c18Rcpt{tg, client, "m" + client + tg})
							}
							sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
							n.Rcpts = l
						}})
				}
			}
			if id == "up" {
				add(c18Op{name: "rcptdup" + id, ok: has, fail: true,
					run: func(db database.Database, t *c18Tree) (any, error) {
						return nil, db.StoreClientDeliveryReceipts(c18Ctx, get(t).N.ID, "phone", []database.DeliveryReceipt{{Target: "#a", InternalMsgID: "x"}, {Target: "#a", InternalMsgID: "y"}})
					}})
			}
			add(c18Op{name: "read" + id, ok: has,
				run: func(db database.Database, t *c18Tree) (any, error) {
					n := get(t)
					r, err := db.GetReadReceipt(c18Ctx, n.N.ID, "#a")
					if err != nil {
						return nil, err
					}
					if r == nil {
						r = &database.ReadReceipt{Target: "#a", Timestamp: c18Time(0)}
					} else {
						r.Timestamp = c18Time(7)
					}
					return r.Timestamp, db.StoreReadReceipt(c18Ctx, n.N.ID, r)
				},
				next: func(t *c18Tree, res any) { get(t).Reads["#a"] = res.(time.Time).Format(time.RFC3339Nano) }})
			add(c18Op{name: "sub" + id, ok: has,
				run: func(db database.Database, t *c18Tree) (any, error) {
					n := get(t)
					s := &database.WebPushSubscription{Endpoint: "https://push/1"}
					s.Keys.Auth, s.Keys.P256DH, s.Keys.VAPID = "1", "2", "3"
					if len(n.Subs) > 0 {
						s.ID = n.Subs[0].ID
						s.Keys.Auth, s.Keys.P256DH, s.Keys.VAPID = "4", "5", "6"
					}
					err := db.StoreWebPushSubscription(c18Ctx, t.user(un).U.ID, n.N.ID, s)
					return s, err
				},
				next: func(t *c18Tree, res any) {
					s := res.(*database.WebPushSubscription)
					get(t).Subs = []c18Sub{{s.ID, s.Endpoint, s.Keys.Auth, s.Keys.P256DH, s.Keys.VAPID}}
				}})
			add(c18Op{name: "unsub" + id,
				ok: func(t *c18Tree) bool { return has(t) && len(get(t).Subs) > 0 },
				run: func(db database.Database, t *c18Tree) (any, error) {
					return nil, db.DeleteWebPushSubscription(c18Ctx, get(t).Subs[0].ID)
				},
				next: func(t *c18Tree, res any) { get(t).Subs = nil }})
			add(c18Op{name: "msg" + id,
				ok: func(t *c18Tree) bool { return has(t) && len(get(t).Msgs["#a"]) < 4 },
				run: func(db database.Database, t *c18Tree) (any, error) {
					var l []*irc.Message
					k := len(get(t).Msgs["#a"])
					for i, s := range []string{":n!u@h PRIVMSG #a :alpha one", ":n!u@h JOIN #a"} {
						m := irc.MustParseMessage(s)
						m.Tags = irc.Tags{"time": c18Time(k + i).Format("2006-01-02T15:04:05.000Z")}
						l = append(l, m)
					}
					ids, err := db.StoreMessages(c18Ctx, get(t).N.ID, "#a", l)
					if err == nil && (len(ids) != 2 || ids[0] == ids[1]) {
						err = fmt.Errorf("harness: IDs %v", ids)
					}
					return l, err
				},
				next: func(t *c18Tree, res any) {
					for _, m := range res.([]*irc.Message) {
						get(t).Msgs["#a"] = append(get(t).Msgs["#a"], m.String())
					}
				}})
			if id == "up" {
				add(c18Op{name: "msgbad" + id, ok: has, fail: true,
					run: func(db database.Database, t *c18Tree) (any, error) {
						good := irc.MustParseMessage("@time=2020-01-01T00:00:00.000Z :n!u@h PRIVMSG #b :beta")
						bad := irc.MustParseMessage("@time=yesterday :n!u@h PRIVMSG #b :beta")
						_, err := db.StoreMessages(c18Ctx, get(t).N.ID, "#b", []*irc.Message{good, bad})
						return nil, err
					}})
			}
		}
	}
	add(c18Op{name: "userdup", fail: true,
		ok: func(t *c18Tree) bool { return t.user("u") != nil },
		run: func(db database.Database, t *c18Tree) (any, error) {
			return nil, db.StoreUser(c18Ctx, database.NewUser("u"))
		}})
	add(c18Op{name: "netnouser", fail: true,
		ok: func(t *c18Tree) bool { return t.user("u") == nil && t.user("v") == nil },
		run: func(db database.Database, t *c18Tree) (any, error) {
			return nil, db.StoreNetwork(c18Ctx, 12345, database.NewNetwork("x"))
		}})
	return ops
}

// c18Orphans looks for rows that belong to nothing.
func c18Orphans(c *kit.Ctx, path string) {
	raw, err := sql.Open("sqlite3", path)
	if err != nil {
		panic(err)
	}
	defer raw.Close()
	for _, q := range []string{
		"SELECT count(*) FROM Network WHERE user NOT IN (SELECT id FROM User)",
		"SELECT count(*) FROM Channel WHERE network NOT IN (SELECT id FROM Network)",
		"SELECT count(*) FROM DeliveryReceipt WHERE network NOT IN (SELECT id FROM Network)",
		"SELECT count(*) FROM ReadReceipt WHERE network NOT IN (SELECT id FROM Network)",
		"SELECT count(*) FROM WebPushSubscription WHERE user NOT IN (SELECT id FROM User) OR (network IS NOT NULL AND network NOT IN (SELECT id FROM Network))",
		"SELECT count(*) FROM MessageTarget WHERE network NOT IN (SELECT id FROM Network)",
		"SELECT count(*) FROM Message WHERE target NOT IN (SELECT id FROM MessageTarget)",
	} {
		var n int
		if err := raw.QueryRow(q).Scan(&n); err != nil {
			continue // the tables are a detail of the implementation
		}
		c.Check(n == 0, "%d orphaned rows: %s", n, q)
	}
}

func c18Open(c *kit.Ctx, path string) database.Database {
	db, err := database.OpenSqliteDB(path)
	if err != nil {
		c.Violatef("the database cannot be opened: %v", err)
		return nil
	}
	return db
}

// model state for the graph: the tree as produced by applying next with fake
// IDs; used for enumeration only.
type c18State struct {
	t *c18Tree
	n int64
}

func c18Fake(op c18Op, s c18State) c18State {
	t := s.t.clone()
	n := s.n
	if !op.fail {
		res, _ := op.run(c18FakeDB{n: &n, t: t}, t)
		op.next(t, res)
		t.fix()
	}
	return c18State{t, n}
}

// c18FakeDB assigns IDs without storing anything.
type c18FakeDB struct {
	database.Database
	n *int64
	t *c18Tree
}

func (f c18FakeDB) id(p *int64) {
	if *p == 0 {
		*f.n++
		*p = *f.n
	}
}
func (f c18FakeDB) StoreUser(ctx context.Context, u *database.User) error { f.id(&u.ID); return nil }
func (f c18FakeDB) DeleteUser(ctx context.Context, id int64) error        { return nil }
func (f c18FakeDB) StoreNetwork(ctx context.Context, uid int64, n *database.Network) error {
	f.id(&n.ID)
	return nil
}
func (f c18FakeDB) DeleteNetwork(ctx context.Context, id int64) error { return nil }
func (f c18FakeDB) StoreChannel(ctx context.Context, nid int64, ch *database.Channel) error {
	f.id(&ch.ID)
	return nil
}
func (f c18FakeDB) DeleteChannel(ctx context.Context, id int64) error { return nil }
func (f c18FakeDB) StoreClientDeliveryReceipts(ctx context.Context, nid int64, client string, l []database.DeliveryReceipt) error {
	return nil
}
func (f c18FakeDB) GetReadReceipt(ctx context.Context, nid int64, name string) (*database.ReadReceipt, error) {
	for _, u := range f.t.Users {
		for _, n := range u.Nets {
			if s, ok := n.Reads[name]; ok && n.N.ID == nid {
				ts, _ := time.Parse(time.RFC3339Nano, s)
				return &database.ReadReceipt{ID: 1, Target: name, Timestamp: ts}, nil
			}
		}
	}
	return nil, nil
}
func (f c18FakeDB) StoreReadReceipt(ctx context.Context, nid int64, r *database.ReadReceipt) error {
	return nil
}
func (f c18FakeDB) StoreWebPushSubscription(ctx context.Context, uid, nid int64, s *database.WebPushSubscription) error {
	f.id(&s.ID)
	return nil
}
func (f c18FakeDB) DeleteWebPushSubscription(ctx context.Context, id int64) error { return nil }
func (f c18FakeDB) StoreMessages(ctx context.Context, nid int64, name string, msgs []*irc.Message) ([]int64, error) {
	return []int64{1, 2}, nil
}

// abstraction of a state without IDs, for the graph
func c18Key(s c18State) string {
	t := s.t.clone()
	for i := range t.Users {
		u := &t.Users[i]
		u.U.ID = 0
		for j := range u.Subs {
			u.Subs[j].ID = 0
		}
		for j := range u.Nets {
			n := &u.Nets[j]
			n.N.ID = 0
			for k := range n.Chans {
				n.Chans[k].ID = 0
			}
			for k := range n.Subs {
				n.Subs[k].ID = 0
			}
		}
		sort.Slice(u.Nets, func(a, b int) bool { return u.Nets[a].N.Addr < u.Nets[b].N.Addr })
	}
	sort.Slice(t.Users, func(a, b int) bool { return t.Users[a].U.Username < t.Users[b].U.Username })
	return t.String()
}

func c18Exec(c *kit.Ctx, ops map[string]c18Op, seq []string, path string, every bool) {
	kit.UseSQLFault().Arm(0, false)
	db := c18Open(c, path)
	if db == nil {
		return
	}
	t := &c18Tree{}
	for i, a := range seq {
		op := ops[a]
		c.Step(a)
		arg := t.clone()
		res, err := op.run(db, arg)
		if op.fail {
			c.Check(err != nil, "%s is accepted", a)
		} else {
			if !c.Check(err == nil, "%s: %v", a, err) {
				break
			}
			op.next(t, res)
			t.fix()
		}
		if every || i == len(seq)-1 || op.fail {
			got := c18Read(c, db)
			c.Check(got.String() == t.String(), "after %s the database holds\n%s\nexpected\n%s", a, got, t)
		}
		if c.Bad() {
			break
		}
	}
	db.Close()
	if c.Bad() || path == ":memory:" {
		return
	}
	c18Orphans(c, path)
	if db = c18Open(c, path); db != nil {
		got := c18Read(c, db)
		c.Check(got.String() == t.String(), "after reopening the database holds\n%s\nexpected\n%s", got, t)
		db.Close()
	}
}

// c18Crash runs seq, then the last operation with a failure at each step.
func c18Crash(c *kit.Ctx, ops map[string]c18Op, seq []string, dir string) {
	f := kit.UseSQLFault()
	last := ops[seq[len(seq)-1]]
	for _, crash := range []bool{false, true} {
		for k := 1; k < 40; k++ {
			f.Arm(0, false)
			path := filepath.Join(dir, fmt.Sprintf("c%v-%d.db", crash, k))
			db := c18Open(c, path)
			if db == nil {
				return
			}
			t := &c18Tree{}
			for _, a := range seq[:len(seq)-1] {
				res, err := ops[a].run(db, t.clone())
				if err != nil {
					c.Violatef("%s: %v", a, err)
					db.Close()
					return
				}
				ops[a].next(t, res)
				t.fix()
			}
			before := t.String()
			f.Arm(k, crash)
			_, err := last.run(db, t.clone())
			_, hit := f.Steps()
			log := strings.Join(f.Log, "; ")
			f.Arm(0, false)
			if hit {
				c.Check(err != nil, "%s reports success although step %d failed (%s)", last.name, k, log)
				if !crash {
					// the connection goes on being used
					got := c18Read(c, db).String()
					c.Check(got == before, "%s failed at step %d (%s) and left\n%s\nbefore it was\n%s", last.name, k, log, got, before)
				}
			}
			db.Close()
			if hit {
				c18Orphans(c, path)
				if db := c18Open(c, path); db != nil {
					got := c18Read(c, db).String()
					c.Check(got == before, "%s was interrupted at step %d (%s) and left\n%s\nbefore it was\n%s", last.name, k, log, got, before)
					if !c.Bad() {
						// and can be done again
						res, err := last.run(db, t.clone())
						if c.Check(err == nil, "%s after an interruption: %v", last.name, err) {
							last.next(t, res)
							t.fix()
							got := c18Read(c, db).String()
							c.Check(got == t.String(), "%s repeated after an interruption left\n%s\nexpected\n%s", last.name, got, t)
						}
					}
					db.Close()
				}
			}
			for _, suf := range []string{"", "-wal", "-shm"} {
				os.Remove(path + suf)
			}
			if !hit || c.Bad() {
				break
			}
		}
	}
}

// ---- fields --------------------------------------------------------------------

var c18Strings = []string{"", "x", "with space", "'quote\"; DROP TABLE User;--", "ünïcødé ☃", "%s ? :name $1", strings.Repeat("long", 300)}

type c18Field struct {
	name string
	vals []any
	set  func(rec any, v any)
}

func c18Fields(kind string) []c18Field {
	str := []any{}
	for _, s := range c18Strings {
		str = append(str, s)
	}
	var nonEmpty []any
	for _, s := range str {
		if s != "" {
			nonEmpty = append(nonEmpty, s)
		}
	}
	boolean := []any{false, true}
	field := func(name string, vals []any) c18Field {
		return c18Field{name, vals, func(rec any, v any) {
			f := reflect.ValueOf(rec).Elem()
			for _, p := range strings.Split(name, ".") {
				f = f.FieldByName(p)
			}
			f.Set(reflect.ValueOf(v))
		}}
	}
	filter := []any{database.FilterDefault, database.FilterNone, database.FilterHighlight, database.FilterMessage}
	switch kind {
	case "user":
		return []c18Field{field("Password", str), field("Nick", str), field("Realname", str), field("Admin", boolean), field("Enabled", boolean),
			field("MaxNetworks", []any{-1, 0, 1, 1 << 30}),
			field("DownstreamInteractedAt", []any{time.Time{}, c18Time(0), time.Date(1999, 12, 31, 23, 59, 59, 999000000, time.UTC), time.Date(2031, 6, 1, 0, 0, 0, 0, time.UTC)})}
	case "network":
		l := []c18Field{field("Name", str), field("Addr", nonEmpty), field("Nick", str), field("Username", str), field("Realname", str), field("Pass", str), field("CertFP", str),
			field("AutoAway", boolean), field("Enabled", boolean),
			field("ConnectCommands", []any{[]string(nil), []string{"ONE"}, []string{"PRIVMSG a :b c", "MODE +x", "'q\" ?"}})}
		l = append(l, c18Field{"SASL", []any{"", "PLAIN:u:p", "PLAIN:ü 'x:p w\"", "EXTERNAL:\x00\x01:\xff", "EXTERNAL:a:b"}, func(rec, v any) {
			n := rec.(*database.Network)
			n.SASL = database.SASL{}
			p := strings.SplitN(v.(string), ":", 3)
			switch p[0] {
			case "PLAIN":
				n.SASL.Mechanism, n.SASL.Plain.Username, n.SASL.Plain.Password = p[0], p[1], p[2]
			case "EXTERNAL":
				n.SASL.Mechanism, n.SASL.External.CertBlob, n.SASL.External.PrivKeyBlob = p[0], []byte(p[1]), []byte(p[2])
			}
		}})
		return l
	case "channel":
		return []c18Field{field("Name", nonEmpty), field("Key", str), field("Detached", boolean), field("DetachedInternalMsgID", str),
			field("RelayDetached", filter), field("ReattachOn", filter), field("DetachOn", filter),
			field("DetachAfter", []any{time.Duration(0), time.Second, 36 * time.Hour, 1000 * 24 * time.Hour})}
	case "sub":
		return []c18Field{field("Keys.Auth", nonEmpty), field("Keys.P256DH", nonEmpty), field("Keys.VAPID", nonEmpty)}
	}
	panic(kind)
}

func c18FieldScenario(c *kit.Ctx, kind string, f c18Field, others bool) {
	db, err := database.OpenTempSqliteDB()
	if err != nil {
		panic(err)
	}
	defer db.Close()
	n := 0
	owner := database.NewUser("owner")
	if err := db.StoreUser(c18Ctx, owner); err != nil {
		panic(err)
	}
	bystander := database.NewUser("bystander")
	bystander.Nick = "untouched"
	db.StoreUser(c18Ctx, bystander)
	bynet := database.NewNetwork("by")
	bynet.Nick = "untouched"
	db.StoreNetwork(c18Ctx, bystander.ID, bynet)
	bych := &database.Channel{Name: "#by", Key: "untouched"}
	db.StoreChannel(c18Ctx, bynet.ID, bych)
	net := database.NewNetwork("net")
	db.StoreNetwork(c18Ctx, owner.ID, net)
	side := func() string {
		us, _ := db.GetUser(c18Ctx, "bystander")
		ns, _ := db.ListNetworks(c18Ctx, bystander.ID)
		cs, _ := db.ListChannels(c18Ctx, bynet.ID)
		return fmt.Sprint(us, ns, cs)
	}
	side0 := side()
	for _, a := range f.vals {
		for _, b := range f.vals {
			n++
			// store with a, then change to b
			mk := func() any {
				switch kind {
				case "user":
					u := database.NewUser(fmt.Sprintf("user%d", n))
					return u
				case "network":
					return database.NewNetwork(fmt.Sprintf("addr%d", n))
				case "channel":
					return &database.Channel{Name: fmt.Sprintf("#c%d", n)}
				default:
					return &database.WebPushSubscription{Endpoint: fmt.Sprintf("https://e/%d", n)}
				}
			}
			rec := mk()
			if others {
				// every other field at its last value
				for _, o := range c18Fields(kind) {
					if o.name != f.name && o.name != "Name" && o.name != "Addr" {
						o.set(rec, o.vals[len(o.vals)-1])
					}
				}
			}
			store := func(v any) {
				f.set(rec, v)
				switch r := rec.(type) {
				case *database.User:
					err = db.StoreUser(c18Ctx, r)
				case *database.Network:
					err = db.StoreNetwork(c18Ctx, owner.ID, r)
				case *database.Channel:
					err = db.StoreChannel(c18Ctx, net.ID, r)
				case *database.WebPushSubscription:
					err = db.StoreWebPushSubscription(c18Ctx, owner.ID, net.ID, r)
				}
				if !c.Check(err == nil, "%s %s=%q: %v", kind, f.name, v, err) {
					return
				}
				var got any
				switch r := rec.(type) {
				case *database.User:
					got, err = db.GetUser(c18Ctx, r.Username)
				case *database.Network:
					l, e := db.ListNetworks(c18Ctx, owner.ID)
					err = e
					for i := range l {
						if l[i].ID == r.ID {
							c18NormNet(&l[i])
							got = &l[i]
						}
					}
				case *database.Channel:
					l, e := db.ListChannels(c18Ctx, net.ID)
					err = e
					for i := range l {
						if l[i].ID == r.ID {
							got = &l[i]
						}
					}
				case *database.WebPushSubscription:
					l, e := db.ListWebPushSubscriptions(c18Ctx, owner.ID, net.ID)
					err = e
					for i := range l {
						if l[i].ID == r.ID {
							l[i].CreatedAt, l[i].UpdatedAt = time.Time{}, time.Time{}
							got = &l[i]
						}
					}
				}
				c.Check(err == nil && got != nil && reflect.DeepEqual(got, rec), "%s with %s=%q reads back as %+v (%v), stored %+v", kind, f.name, v, got, err, rec)
			}
			store(a)
			store(b)
			// remove it so that unique values can be used again
			switch r := rec.(type) {
			case *database.User:
				err = db.DeleteUser(c18Ctx, r.ID)
			case *database.Network:
				err = db.DeleteNetwork(c18Ctx, r.ID)
			case *database.Channel:
				err = db.DeleteChannel(c18Ctx, r.ID)
			case *database.WebPushSubscription:
				err = db.DeleteWebPushSubscription(c18Ctx, r.ID)
			}
			c.Check(err == nil, "deleting the %s: %v", kind, err)
			c.Check(side() == side0, "other records change: %s, before %s", side(), side0)
			if c.Bad() {
				return
			}
		}
	}
}

// ---- the check -------------------------------------------------------------------

func TestC18(t *testing.T) {
	r := kit.Start(t, "C18")
	kit.UseSQLFault()
	list := c18Ops()
	ops := map[string]c18Op{}
	for _, o := range list {
		ops[o.name] = o
	}
	dir, err := os.MkdirTemp("", "verif-db-")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	nfile := 0
	file := func() string { nfile++; return filepath.Join(dir, fmt.Sprintf("f%d.db", nfile)) }
	rm := func(path string) {
		for _, suf := range []string{"", "-wal", "-shm"} {
			os.Remove(path + suf)
		}
	}

	// 1. every field, every change of value
	for _, kind := range []string{"user", "network", "channel", "sub"} {
		for _, f := range c18Fields(kind) {
			for _, others := range []bool{false, true} {
				r.Plain(fmt.Sprintf("field:%s.%s/%v", kind, f.name, others), func(c *kit.Ctx) { c18FieldScenario(c, kind, f, others) })
				r.Count(len(f.vals), len(f.vals)*len(f.vals))
			}
		}
	}

	// 2. the reachable graph of the reference, from a populated start
	enabled := func(s c18State) []string {
		var l []string
		for _, o := range list {
			if o.ok(s.t) {
				l = append(l, o.name)
			}
		}
		return l
	}
	next := func(s c18State, a string) c18State { return c18Fake(ops[a], s) }
	starts := map[string][]string{
		"empty": nil,
		"full": {"user+u", "user+v", "net+up", "net+uq", "net+vp", "ch+up", "ch+uq", "ch+vp", "rcptup00", "rcptup10", "rcptuq00", "rcptvp11", "readup", "readuq", "readvp",
			"subup", "subuq", "subvp", "usersubu", "usersubv", "msgup", "msguq", "msgvp"},
	}
	for _, name := range []string{"empty", "full"} {
		pre := starts[name]
		init := c18State{t: &c18Tree{}}
		for _, a := range pre {
			init = next(init, a)
		}
		depth := r.Pick(2, 3)
		if name == "empty" {
			depth = r.Pick(4, 5)
		}
		kit.Graph(r, "ops-"+name, init, c18Key, enabled, next, depth, func(key string, seq []string) {
			r.Plain(key, func(c *kit.Ctx) {
				path := file()
				defer rm(path)
				c18Exec(c, ops, append(append([]string(nil), pre...), seq...), path, false)
			})
		})
	}
	// delete everything in every order, re-creating in between
	r.Tree("churn", r.Pick(3, 4), func(seq []string) []string {
		return []string{"user-u", "user-v", "net-up", "net-uq", "net-vp", "user+u", "net+up", "ch-up", "msgup", "usersubv"}
	}, func(key string, seq []string) {
		s := c18State{t: &c18Tree{}}
		full := append(append([]string(nil), starts["full"]...), seq...)
		for i, a := range full {
			if !ops[a].ok(s.t) {
				full = full[:i]
				break
			}
			s = next(s, a)
		}
		if len(full) < len(starts["full"])+len(seq) {
			return
		}
		r.Plain(key, func(c *kit.Ctx) {
			path := file()
			defer rm(path)
			c18Exec(c, ops, full, path, false)
		})
	})

	// 3. every operation failing or interrupted at every step
	for _, o := range list {
		if o.fail {
			continue
		}
		for i, pre := range [][]string{starts["full"], {"user+u", "net+up"}, {"user+u"}, {"user+v"}, nil, {"user+u", "net+up", "ch+up"}, {"user+u", "user+v", "net+vp"}, {"user+u", "net+uq"}} {
			s := c18State{t: &c18Tree{}}
			for _, a := range pre {
				s = next(s, a)
			}
			if o.ok(s.t) {
				r.Plain(fmt.Sprintf("crash:%s/%d", o.name, i), func(c *kit.Ctx) {
					d, err := os.MkdirTemp(dir, "crash")
					if err != nil {
						panic(err)
					}
					defer os.RemoveAll(d)
					c18Crash(c, ops, append(append([]string(nil), pre...), o.name), d)
				})
			}
		}
	}

	// 4. older schema versions
	for v := 1; v <= len(c18Migrations); v++ {
		for _, populated := range []bool{false, true} {
			r.Plain(fmt.Sprintf("upgrade:%d/%v", v, populated), func(c *kit.Ctx) {
				path := file()
				defer rm(path)
				want := c18MakeOld(path, v, populated)
				db := c18Open(c, path)
				if db == nil {
					return
				}
				c18OldCheck(c, db, want)
				// and it is usable
				u := database.NewUser("fresh")
				c.Check(db.StoreUser(c18Ctx, u) == nil, "the upgraded database cannot store a user")
				c.Check(db.StoreNetwork(c18Ctx, 12345, database.NewNetwork("stray")) != nil, "the upgraded database accepts a network of a user that does not exist")
				db.Close()
				c18Orphans(c, path)
				if db = c18Open(c, path); db == nil {
					return
				}
				users, _ := db.ListUsers(c18Ctx)
				for _, u := range users {
					err := db.DeleteUser(c18Ctx, u.ID)
					c.Check(err == nil, "deleting %s of the upgraded database: %v", u.Username, err)
				}
				db.Close()
				c18Orphans(c, path)
				if db = c18Open(c, path); db != nil {
					db.Close()
				}
			})
			r.Plain(fmt.Sprintf("upgrade-crash:%d/%v", v, populated), func(c *kit.Ctx) {
				f := kit.UseSQLFault()
				for k := 1; k < 60; k++ {
					path := file()
					want := c18MakeOld(path, v, populated)
					f.Arm(k, true)
					db, err := database.OpenSqliteDB(path)
					_, hit := f.Steps()
					f.Arm(0, false)
					if db != nil {
						db.Close()
					}
					if hit {
						c.Check(err != nil, "opening succeeds although step %d failed", k)
						if db := c18Open(c, path); db != nil {
							c18OldCheck(c, db, want)
							db.Close()
						}
					}
					rm(path)
					if !hit || c.Bad() {
						return
					}
				}
			})
		}
	}
	r.Count(2*len(c18Migrations), 2*len(c18Migrations))
	r.Plain("newer", func(c *kit.Ctx) {
		path := file()
		defer rm(path)
		db := c18Open(c, path)
		db.Close()
		raw, _ := sql.Open("sqlite3", path)
		raw.Exec("PRAGMA user_version = 1000")
		raw.Close()
		db, err := database.OpenSqliteDB(path)
		c.Check(err != nil, "a database of a newer version is opened")
		if db != nil {
			db.Close()
		}
	})
}
