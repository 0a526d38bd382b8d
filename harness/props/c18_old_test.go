package props

import (
	"database/sql"
	"fmt"
	"sort"
	"strings"
	"time"

	"codeberg.org/emersion/soju/database"

	"sojuverif/kit"
)

// The schema history as released: version v is the first schema followed by
// the migrations 1 to v-1. Published versions never change, so this is a
// frozen copy: databases in these formats exist.

const c18V0 = `
CREATE TABLE User (
	username VARCHAR(255) NOT NULL UNIQUE,
	password VARCHAR(255)
);

CREATE TABLE Network (
	id INTEGER PRIMARY KEY,
	name VARCHAR(255),
	user VARCHAR(255) NOT NULL,
	addr VARCHAR(255) NOT NULL,
	nick VARCHAR(255) NOT NULL,
	username VARCHAR(255),
	realname VARCHAR(255),
	pass VARCHAR(255),
	sasl_mechanism VARCHAR(255),
	sasl_plain_username VARCHAR(255),
	sasl_plain_password VARCHAR(255),
	UNIQUE(user, addr, nick),
	UNIQUE(user, name)
);

CREATE TABLE Channel (
	id INTEGER PRIMARY KEY,
	network INTEGER NOT NULL,
	name VARCHAR(255) NOT NULL,
	key VARCHAR(255),
	FOREIGN KEY(network) REFERENCES Network(id),
	UNIQUE(network, name)
);

PRAGMA user_version = 1;
`

var c18Migrations = []string{
	"", // migration #0 is reserved for schema initialization
	"ALTER TABLE Network ADD COLUMN connect_commands VARCHAR(1023)",
	"ALTER TABLE Channel ADD COLUMN detached INTEGER NOT NULL DEFAULT 0",
	"ALTER TABLE Network ADD COLUMN sasl_external_cert BLOB DEFAULT NULL",
	"ALTER TABLE Network ADD COLUMN sasl_external_key BLOB DEFAULT NULL",
	"ALTER TABLE User ADD COLUMN admin INTEGER NOT NULL DEFAULT 0",
	`
		CREATE TABLE UserNew (
			id INTEGER PRIMARY KEY,
			username VARCHAR(255) NOT NULL UNIQUE,
			password VARCHAR(255),
			admin INTEGER NOT NULL DEFAULT 0
		);
		INSERT INTO UserNew SELECT rowid, username, password, admin FROM User;
		DROP TABLE User;
		ALTER TABLE UserNew RENAME TO User;
	`,
	`
		CREATE TABLE NetworkNew (
			id INTEGER PRIMARY KEY,
			name VARCHAR(255),
			user INTEGER NOT NULL,
			addr VARCHAR(255) NOT NULL,
			nick VARCHAR(255) NOT NULL,
			username VARCHAR(255),
			realname VARCHAR(255),
			pass VARCHAR(255),
			connect_commands VARCHAR(1023),
			sasl_mechanism VARCHAR(255),
			sasl_plain_username VARCHAR(255),
			sasl_plain_password VARCHAR(255),
			sasl_external_cert BLOB DEFAULT NULL,
			sasl_external_key BLOB DEFAULT NULL,
			FOREIGN KEY(user) REFERENCES User(id),
			UNIQUE(user, addr, nick),
			UNIQUE(user, name)
		);
		INSERT INTO NetworkNew
			SELECT Network.id, name, User.id as user, addr, nick,
				Network.username, realname, pass, connect_commands,
				sasl_mechanism, sasl_plain_username, sasl_plain_password,
				sasl_external_cert, sasl_external_key
			FROM Network
			JOIN User ON Network.user = User.username;
		DROP TABLE Network;
		ALTER TABLE NetworkNew RENAME TO Network;
	`,
	`
		ALTER TABLE Channel ADD COLUMN relay_detached INTEGER NOT NULL DEFAULT 0;
		ALTER TABLE Channel ADD COLUMN reattach_on INTEGER NOT NULL DEFAULT 0;
		ALTER TABLE Channel ADD COLUMN detach_after INTEGER NOT NULL DEFAULT 0;
		ALTER TABLE Channel ADD COLUMN detach_on INTEGER NOT NULL DEFAULT 0;
	`,
	`
		CREATE TABLE DeliveryReceipt (
			id INTEGER PRIMARY KEY,
			network INTEGER NOT NULL,
			target VARCHAR(255) NOT NULL,
			client VARCHAR(255),
			internal_msgid VARCHAR(255) NOT NULL,
			FOREIGN KEY(network) REFERENCES Network(id),
			UNIQUE(network, target, client)
		);
	`,
	"ALTER TABLE Channel ADD COLUMN detached_internal_msgid VARCHAR(255)",
	"ALTER TABLE Network ADD COLUMN enabled INTEGER NOT NULL DEFAULT 1",
	"ALTER TABLE User ADD COLUMN realname VARCHAR(255)",
	`
		CREATE TABLE NetworkNew (
			id INTEGER PRIMARY KEY,
			name TEXT,
			user INTEGER NOT NULL,
			addr TEXT NOT NULL,
			nick TEXT,
			username TEXT,
			realname TEXT,
			pass TEXT,
			connect_commands TEXT,
			sasl_mechanism TEXT,
			sasl_plain_username TEXT,
			sasl_plain_password TEXT,
			sasl_external_cert BLOB,
			sasl_external_key BLOB,
			enabled INTEGER NOT NULL DEFAULT 1,
			FOREIGN KEY(user) REFERENCES User(id),
			UNIQUE(user, addr, nick),
			UNIQUE(user, name)
		);
		INSERT INTO NetworkNew
			SELECT id, name, user, addr, nick, username, realname, pass,
				connect_commands, sasl_mechanism, sasl_plain_username,
				sasl_plain_password, sasl_external_cert, sasl_external_key,
				enabled
			FROM Network;
		DROP TABLE Network;
		ALTER TABLE NetworkNew RENAME TO Network;
	`,
	`
		CREATE TABLE ReadReceipt (
			id INTEGER PRIMARY KEY,
			network INTEGER NOT NULL,
			target TEXT NOT NULL,
			timestamp TEXT NOT NULL,
			FOREIGN KEY(network) REFERENCES Network(id),
			UNIQUE(network, target)
		);
	`,
	`
		CREATE TABLE WebPushConfig (
			id INTEGER PRIMARY KEY,
			created_at TEXT NOT NULL,
			vapid_key_public TEXT NOT NULL,
			vapid_key_private TEXT NOT NULL,
			UNIQUE(vapid_key_public)
		);

		CREATE TABLE WebPushSubscription (
			id INTEGER PRIMARY KEY,
			created_at TEXT NOT NULL,
			updated_at TEXT NOT NULL,
			network INTEGER,
			endpoint TEXT NOT NULL,
			key_vapid TEXT,
			key_auth TEXT,
			key_p256dh TEXT,
			FOREIGN KEY(network) REFERENCES Network(id),
			UNIQUE(network, endpoint)
		);
	`,
	`
		ALTER TABLE WebPushSubscription ADD COLUMN user INTEGER REFERENCES User(id);
		UPDATE WebPushSubscription AS wps SET user = (SELECT n.user FROM Network AS n WHERE n.id = wps.network);
	`,
	"ALTER TABLE User ADD COLUMN nick TEXT;",
	"ALTER TABLE Network ADD COLUMN auto_away INTEGER NOT NULL DEFAULT 1;",
	"ALTER TABLE Network ADD COLUMN certfp TEXT;",
	// SQLite doesn't support non-constant default values, so use an empty
	// string as default and update all columns in a separate statement
	`
		ALTER TABLE User ADD COLUMN created_at TEXT NOT NULL DEFAULT '';
		UPDATE User SET created_at = strftime('%Y-%m-%dT%H:%M:%fZ', 'now');
	`,
	"ALTER TABLE User ADD COLUMN enabled INTEGER NOT NULL DEFAULT 1",
	"ALTER TABLE User ADD COLUMN downstream_interacted_at TEXT;",
	`
		CREATE TABLE Message (
			id INTEGER PRIMARY KEY,
			target INTEGER NOT NULL,
			raw TEXT NOT NULL,
			time TEXT NOT NULL,
			sender TEXT NOT NULL,
			text TEXT,
			FOREIGN KEY(target) REFERENCES MessageTarget(id)
		);
		CREATE INDEX MessageIndex ON Message(target, time);

		CREATE TABLE MessageTarget (
			id INTEGER PRIMARY KEY,
			network INTEGER NOT NULL,
			target TEXT NOT NULL,
			FOREIGN KEY(network) REFERENCES Network(id),
			UNIQUE(network, target)
		);

		CREATE VIRTUAL TABLE MessageFTS USING fts5 (
			text,
			content=Message,
			content_rowid=id
		);
		CREATE TRIGGER MessageFTSInsert AFTER INSERT ON Message BEGIN
			INSERT INTO MessageFTS(rowid, text) VALUES (new.id, new.text);
		END;
		CREATE TRIGGER MessageFTSDelete AFTER DELETE ON Message BEGIN
			INSERT INTO MessageFTS(MessageFTS, rowid, text) VALUES ('delete', old.id, old.text);
		END;
		CREATE TRIGGER MessageFTSUpdate AFTER UPDATE ON Message BEGIN
			INSERT INTO MessageFTS(MessageFTS, rowid, text) VALUES ('delete', old.id, old.text);
			INSERT INTO MessageFTS(rowid, text) VALUES (new.id, new.text);
		END;
	`,
	"ALTER TABLE User ADD COLUMN max_networks INTEGER NOT NULL DEFAULT -1",
}

// the migration that introduced a column
var c18Since = map[string]int{
	"Network.connect_commands": 1, "Channel.detached": 2, "Network.sasl_external_cert": 3, "Network.sasl_external_key": 4, "User.admin": 5,
	"User.id": 6, "Channel.relay_detached": 8, "Channel.reattach_on": 8, "Channel.detach_after": 8, "Channel.detach_on": 8,
	"DeliveryReceipt.": 9, "Channel.detached_internal_msgid": 10, "Network.enabled": 11, "User.realname": 12, "ReadReceipt.": 14,
	"WebPushConfig.": 15, "WebPushSubscription.": 15, "WebPushSubscription.user": 16, "User.nick": 17, "Network.auto_away": 18, "Network.certfp": 19,
	"User.created_at": 20, "User.enabled": 21, "User.downstream_interacted_at": 22, "MessageTarget.": 23, "Message.": 23, "User.max_networks": 24,
}

type c18Old struct {
	v       int
	rows    bool
	created time.Time
}

func c18Has(v int, table, col string) bool {
	for _, k := range []string{table + ".", table + "." + col} {
		if m, ok := c18Since[k]; ok && v <= m {
			return false
		}
	}
	return true
}

// c18MakeOld creates a database of version v.
func c18MakeOld(path string, v int, populated bool) *c18Old {
	raw, err := sql.Open("sqlite3", path)
	if err != nil {
		panic(err)
	}
	defer raw.Close()
	raw.SetMaxOpenConns(1)
	exec := func(q string, args ...any) {
		if _, err := raw.Exec(q, args...); err != nil {
			panic(fmt.Sprintf("old database %d: %v: %s", v, err, q))
		}
	}
	exec(c18V0)
	for i := 1; i < v; i++ {
		exec(c18Migrations[i])
	}
	exec(fmt.Sprintf("PRAGMA user_version = %d", v))
	o := &c18Old{v: v, rows: populated}
	if !populated {
		return o
	}
	ins := func(table string, row map[string]any) {
		var cols, q []string
		var args []any
		for k := range row {
			if c18Has(v, table, k) {
				cols = append(cols, k)
			}
		}
		if len(cols) == 0 {
			return
		}
		sort.Strings(cols)
		for _, k := range cols {
			q = append(q, "?")
			args = append(args, row[k])
		}
		exec(fmt.Sprintf("INSERT INTO %s(%s) VALUES(%s)", table, strings.Join(cols, ","), strings.Join(q, ",")), args...)
	}
	for i, name := range []string{"alice", "bob"} {
		ins("User", map[string]any{"id": i + 1, "username": name, "password": "hash-" + name, "admin": i == 0, "realname": "Real " + name, "nick": "nick" + name,
			"created_at": "2019-01-01T00:00:00.000Z", "enabled": i == 0, "downstream_interacted_at": "2021-02-03T04:05:06.789Z", "max_networks": i})
		for j := 1; j <= 2; j++ {
			id := 10*(i+1) + j
			var owner any = i + 1
			if v <= 7 {
				owner = name
			}
			ins("Network", map[string]any{"id": id, "name": fmt.Sprintf("net%d", id), "user": owner, "addr": fmt.Sprintf("addr%d", id), "nick": fmt.Sprintf("nn%d", id), "username": "un", "realname": "rn", "pass": "pw",
				"connect_commands": "ONE\r\nTWO x", "sasl_mechanism": "PLAIN", "sasl_plain_username": "su", "sasl_plain_password": "sp", "enabled": j == 1, "auto_away": j == 1, "certfp": "fp"})
			for k := 1; k <= 2; k++ {
				ins("Channel", map[string]any{"id": 10*id + k, "network": id, "name": fmt.Sprintf("#c%d", k), "key": "key", "detached": k == 1, "relay_detached": 1, "reattach_on": 2, "detach_after": 60, "detach_on": 3, "detached_internal_msgid": "mid"})
			}
			if c18Has(v, "DeliveryReceipt", "id") {
				ins("DeliveryReceipt", map[string]any{"id": id, "network": id, "target": "#c1", "client": "phone", "internal_msgid": "rid"})
			}
			if c18Has(v, "ReadReceipt", "id") {
				ins("ReadReceipt", map[string]any{"id": id, "network": id, "target": "#c1", "timestamp": "2021-02-03T04:05:06.789Z"})
			}
			if c18Has(v, "WebPushSubscription", "id") {
				ins("WebPushSubscription", map[string]any{"id": id, "created_at": "2021-02-03T04:05:06.789Z", "updated_at": "2021-02-03T04:05:06.789Z", "user": i + 1, "network": id, "endpoint": "https://e", "key_vapid": "V", "key_auth": "A", "key_p256dh": "P"})
			}
			if c18Has(v, "Message", "id") {
				ins("MessageTarget", map[string]any{"id": id, "network": id, "target": "#c1"})
				ins("Message", map[string]any{"id": id, "target": id, "raw": ":x PRIVMSG #c1 :alpha", "time": "2021-02-03T04:05:06.789Z", "sender": "x", "text": "alpha"})
			}
		}
	}
	if c18Has(v, "WebPushConfig", "id") {
		ins("WebPushConfig", map[string]any{"id": 1, "created_at": "2021-02-03T04:05:06.789Z", "vapid_key_public": "pub", "vapid_key_private": "priv"})
	}
	return o
}

// c18OldCheck compares an upgraded database with what was in it.
func c18OldCheck(c *kit.Ctx, db database.Database, o *c18Old) {
	users, err := db.ListUsers(c18Ctx)
	c.Check(err == nil, "ListUsers: %v", err)
	if !o.rows {
		c.Check(len(users) == 0, "users appear: %v", users)
		return
	}
	sort.Slice(users, func(i, j int) bool { return users[i].Username < users[j].Username })
	if !c.Check(len(users) == 2, "upgrading version %d: the users are %v", o.v, users) {
		return
	}
	at, _ := time.Parse(time.RFC3339Nano, "2021-02-03T04:05:06.789Z")
	has := func(table, col string) bool { return c18Has(o.v, table, col) }
	for i, name := range []string{"alice", "bob"} {
		w := *database.NewUser(name)
		w.ID, w.Password = users[i].ID, "hash-"+name
		if has("User", "id") {
			w.ID = int64(i + 1)
		}
		if has("User", "admin") {
			w.Admin = i == 0
		}
		if has("User", "realname") {
			w.Realname = "Real " + name
		}
		if has("User", "nick") {
			w.Nick = "nick" + name
		}
		if has("User", "enabled") {
			w.Enabled = i == 0
		}
		if has("User", "downstream_interacted_at") {
			w.DownstreamInteractedAt = at
		}
		if has("User", "max_networks") {
			w.MaxNetworks = i
		}
		c.Check(users[i] == w, "upgrading version %d: user %+v, expected %+v", o.v, users[i], w)
		nets, err := db.ListNetworks(c18Ctx, users[i].ID)
		c.Check(err == nil, "ListNetworks: %v", err)
		sort.Slice(nets, func(i, j int) bool { return nets[i].ID < nets[j].ID })
		if !c.Check(len(nets) == 2, "upgrading version %d: the networks of %s are %v", o.v, name, nets) {
			return
		}
		for j := 1; j <= 2; j++ {
			id := int64(10*(i+1) + j)
			wn := *database.NewNetwork(fmt.Sprintf("addr%d", id))
			wn.ID, wn.Name, wn.Nick, wn.Username, wn.Realname, wn.Pass = id, fmt.Sprintf("net%d", id), fmt.Sprintf("nn%d", id), "un", "rn", "pw"
			wn.SASL.Mechanism, wn.SASL.Plain.Username, wn.SASL.Plain.Password = "PLAIN", "su", "sp"
			if has("Network", "connect_commands") {
				wn.ConnectCommands = []string{"ONE", "TWO x"}
			}
			if has("Network", "enabled") {
				wn.Enabled = j == 1
			}
			if has("Network", "auto_away") {
				wn.AutoAway = j == 1
			}
			if has("Network", "certfp") {
				wn.CertFP = "fp"
			}
			n := nets[j-1]
			c18NormNet(&n)
			c.Check(fmt.Sprintf("%+v", n) == fmt.Sprintf("%+v", wn), "upgrading version %d: network %+v, expected %+v", o.v, n, wn)
			chans, err := db.ListChannels(c18Ctx, id)
			c.Check(err == nil, "ListChannels: %v", err)
			sort.Slice(chans, func(i, j int) bool { return chans[i].ID < chans[j].ID })
			var wc []database.Channel
			for k := 1; k <= 2; k++ {
				ch := database.Channel{ID: 10*id + int64(k), Name: fmt.Sprintf("#c%d", k), Key: "key"}
				if has("Channel", "detached") {
					ch.Detached = k == 1
				}
				if has("Channel", "relay_detached") {
					ch.RelayDetached, ch.ReattachOn, ch.DetachOn, ch.DetachAfter = 1, 2, 3, time.Minute
				}
				if has("Channel", "detached_internal_msgid") {
					ch.DetachedInternalMsgID = "mid"
				}
				wc = append(wc, ch)
			}
			c.Check(fmt.Sprintf("%+v", chans) == fmt.Sprintf("%+v", wc), "upgrading version %d: channels %+v, expected %+v", o.v, chans, wc)
			rc, err := db.ListDeliveryReceipts(c18Ctx, id)
			c.Check(err == nil && (!has("DeliveryReceipt", "id") && len(rc) == 0 || len(rc) == 1 && rc[0].Target == "#c1" && rc[0].Client == "phone" && rc[0].InternalMsgID == "rid"), "upgrading version %d: receipts %+v %v", o.v, rc, err)
			rr, err := db.GetReadReceipt(c18Ctx, id, "#c1")
			c.Check(err == nil && (!has("ReadReceipt", "id") && rr == nil || rr != nil && rr.Timestamp.Equal(at)), "upgrading version %d: read marker %+v %v", o.v, rr, err)
			subs, err := db.ListWebPushSubscriptions(c18Ctx, users[i].ID, id)
			c.Check(err == nil && (!has("WebPushSubscription", "id") && len(subs) == 0 || len(subs) == 1 && subs[0].Endpoint == "https://e" && subs[0].Keys.Auth == "A" && subs[0].Keys.P256DH == "P" && subs[0].Keys.VAPID == "V"), "upgrading version %d: subscriptions %+v %v", o.v, subs, err)
			msgs, err := db.ListMessages(c18Ctx, id, "#c1", &database.MessageOptions{Limit: 10, Text: "alpha"})
			c.Check(err == nil && (!has("Message", "id") && len(msgs) == 0 || len(msgs) == 1), "upgrading version %d: messages %+v %v", o.v, msgs, err)
		}
	}
	cfgs, err := db.ListWebPushConfigs(c18Ctx)
	c.Check(err == nil && (!has("WebPushConfig", "id") && len(cfgs) == 0 || len(cfgs) == 1 && cfgs[0].VAPIDKeys.Public == "pub" && cfgs[0].VAPIDKeys.Private == "priv"), "upgrading version %d: web push keys %+v %v", o.v, cfgs, err)
}
