package kit

import (
	"context"
	"errors"
	"sync"

	"codeberg.org/emersion/soju/database"
	"gopkg.in/irc.v4"
)

// GateDB is the real database with a point of control before each write: the
// operation can be made to fail, or to wait until it is released.
type GateDB struct {
	database.Database
	mu   sync.Mutex
	fail map[string]bool
	hold map[string]chan struct{}
	Ops  []string
}

var ErrInjected = errors.New("injected database failure")

// Gate installs a GateDB in a world; call it before Start.
func (w *World) Gate() *GateDB {
	g := &GateDB{fail: map[string]bool{}, hold: map[string]chan struct{}{}}
	w.WrapDB = func(db database.Database) database.Database {
		g.Database = db
		return g
	}
	return g
}

// Fail makes an operation fail from now on (or stop failing).
func (g *GateDB) Fail(op string, v bool) { g.mu.Lock(); g.fail[op] = v; g.mu.Unlock() }

// Hold makes the operation wait until Release.
func (g *GateDB) Hold(op string) { g.mu.Lock(); g.hold[op] = make(chan struct{}); g.mu.Unlock() }

// Release lets the operation go on.
func (g *GateDB) Release(op string) {
	g.mu.Lock()
	defer g.mu.Unlock()
	if ch := g.hold[op]; ch != nil {
		close(ch)
		delete(g.hold, op)
	}
}

// ReleaseAll lets everything go on.
func (g *GateDB) ReleaseAll() {
	g.mu.Lock()
	defer g.mu.Unlock()
	for op, ch := range g.hold {
		close(ch)
		delete(g.hold, op)
	}
}

func (g *GateDB) at(op string) error {
	g.mu.Lock()
	g.Ops = append(g.Ops, op)
	f, h := g.fail[op] || g.fail["*"], g.hold[op]
	g.mu.Unlock()
	if h != nil {
		<-h
	}
	if f {
		return ErrInjected
	}
	return nil
}

func (g *GateDB) StoreUser(ctx context.Context, user *database.User) error {
	if err := g.at("StoreUser"); err != nil {
		return err
	}
	return g.Database.StoreUser(ctx, user)
}

func (g *GateDB) DeleteUser(ctx context.Context, id int64) error {
	if err := g.at("DeleteUser"); err != nil {
		return err
	}
	return g.Database.DeleteUser(ctx, id)
}

func (g *GateDB) StoreNetwork(ctx context.Context, userID int64, network *database.Network) error {
	if err := g.at("StoreNetwork"); err != nil {
		return err
	}
	return g.Database.StoreNetwork(ctx, userID, network)
}

func (g *GateDB) DeleteNetwork(ctx context.Context, id int64) error {
	if err := g.at("DeleteNetwork"); err != nil {
		return err
	}
	return g.Database.DeleteNetwork(ctx, id)
}

func (g *GateDB) StoreChannel(ctx context.Context, networkID int64, ch *database.Channel) error {
	if err := g.at("StoreChannel"); err != nil {
		return err
	}
	return g.Database.StoreChannel(ctx, networkID, ch)
}

func (g *GateDB) DeleteChannel(ctx context.Context, id int64) error {
	if err := g.at("DeleteChannel"); err != nil {
		return err
	}
	return g.Database.DeleteChannel(ctx, id)
}

func (g *GateDB) StoreClientDeliveryReceipts(ctx context.Context, networkID int64, client string, receipts []database.DeliveryReceipt) error {
	if err := g.at("StoreClientDeliveryReceipts"); err != nil {
		return err
	}
	return g.Database.StoreClientDeliveryReceipts(ctx, networkID, client, receipts)
}

func (g *GateDB) GetReadReceipt(ctx context.Context, networkID int64, name string) (*database.ReadReceipt, error) {
	if err := g.at("GetReadReceipt"); err != nil {
		return nil, err
	}
	return g.Database.GetReadReceipt(ctx, networkID, name)
}

func (g *GateDB) StoreReadReceipt(ctx context.Context, networkID int64, receipt *database.ReadReceipt) error {
	if err := g.at("StoreReadReceipt"); err != nil {
		return err
	}
	return g.Database.StoreReadReceipt(ctx, networkID, receipt)
}

func (g *GateDB) ListWebPushSubscriptions(ctx context.Context, userID, networkID int64) ([]database.WebPushSubscription, error) {
	if err := g.at("ListWebPushSubscriptions"); err != nil {
		return nil, err
	}
	return g.Database.ListWebPushSubscriptions(ctx, userID, networkID)
}

func (g *GateDB) StoreWebPushSubscription(ctx context.Context, userID, networkID int64, sub *database.WebPushSubscription) error {
	if err := g.at("StoreWebPushSubscription"); err != nil {
		return err
	}
	return g.Database.StoreWebPushSubscription(ctx, userID, networkID, sub)
}

func (g *GateDB) DeleteWebPushSubscription(ctx context.Context, id int64) error {
	if err := g.at("DeleteWebPushSubscription"); err != nil {
		return err
	}
	return g.Database.DeleteWebPushSubscription(ctx, id)
}

func (g *GateDB) StoreMessages(ctx context.Context, networkID int64, name string, msgs []*irc.Message) ([]int64, error) {
	if err := g.at("StoreMessages"); err != nil {
		return nil, err
	}
	return g.Database.StoreMessages(ctx, networkID, name, msgs)
}
