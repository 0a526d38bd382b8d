package props

import (
	"context"
	"crypto"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"fmt"
	"strings"
	"time"

	"codeberg.org/emersion/soju/database"
	"sojuverif/kit"
)

// c30Certs has certificates made, replaced and removed, and looks at what is
// stored, shown and remembered.
func c30Certs(r *kit.Run) {
	acts := []string{"ed25519", "ecdsa", "rsa -bits 1024", "plain", "reset", "restart", "bits 0", "bits -1", "bits 8193", "type", "extra"}
	for _, bound := range []bool{true, false} {
		r.Tree(fmt.Sprintf("cert,%v", bound), r.Pick(3, 4), func(seq []string) []string { return acts }, func(key string, seq []string) {
			r.World(key, func(c *kit.Ctx, w *kit.World) {
				u := w.AddUser("alice", nil)
				w.AddNetwork(u, "n0", nil)
				w.AddNetwork(u, "n1", nil)
				w.Start()
				var cl *kit.Client
				flag := " -network n1"
				connect := func() {
					net := "n0"
					if bound {
						net, flag = "n1", ""
					}
					cl = w.Connect("cl", kit.ConnOpts{User: "alice", Network: net, Client: "cl"})
				}
				connect()
				serv := func(cmd string) string {
					cl.Take()
					return strings.Join(kit.Service(cl.Do("PRIVMSG BouncerServ :"+cmd)), "\n")
				}
				mech := ""
				want := c07Load(w.DB).render("alice")
				for _, a := range seq {
					c.Step(a)
					var reply string
					refused := false
					switch a {
					case "plain":
						reply, mech = serv("sasl set-plain"+flag+" acc pw"), "PLAIN"
					case "reset":
						reply, mech = serv("sasl reset"+flag), ""
					case "restart":
						w.Restart()
						connect()
					case "bits 0", "bits -1", "bits 8193":
						reply, refused = serv("certfp generate"+flag+" -"+a), true
					case "type":
						reply, refused = serv("certfp generate"+flag+" -key-type dsa"), true
					case "extra":
						reply, refused = serv("certfp generate"+flag+" -key-type ed25519 more"), true
					default:
						reply, mech = serv("certfp generate"+flag+" -key-type "+a), "EXTERNAL"
					}
					c.Check(strings.Contains(reply, "error") == refused, "%s: reply %q", a, reply)
					st := c07Load(w.DB)
					got := st.render("alice")
					if refused || a == "restart" {
						c.Check(got == want, "%s: %s becomes %s", a, want, got)
					}
					want = got
					o := st["alice"].Nets[0].N
					nets, err := w.DB.ListNetworks(context.Background(), u.ID)
					if !c.Check(err == nil && len(nets) == 2, "%v: %v networks", err, len(nets)) {
						return
					}
					n := nets[1]
					c.Check(o.SASL.Mechanism == "" && o.SASL.External.CertBlob == nil && o.SASL.Plain.Username == "", "%s: the other network's credentials become %+v", a, o.SASL)
					c.Check(n.SASL.Mechanism == mech && (n.SASL.Plain.Username != "") == (mech == "PLAIN") && (n.SASL.External.CertBlob != nil) == (mech == "EXTERNAL") && (n.SASL.External.PrivKeyBlob != nil) == (mech == "EXTERNAL"), "%s: stored: %+v", a, n.SASL)
					show := serv("certfp fingerprint" + flag)
					if mech != "EXTERNAL" {
						c.Check(strings.Contains(show, "error"), "%s: fingerprint: %q", a, show)
					} else if !c.Bad() {
						s1, s2, s5 := sha1.Sum(n.SASL.External.CertBlob), sha256.Sum256(n.SASL.External.CertBlob), sha512.Sum512(n.SASL.External.CertBlob)
						prints := fmt.Sprintf("SHA-1 fingerprint: %x\nSHA-256 fingerprint: %x\nSHA-512 fingerprint: %x", s1, s2, s5)
						c.Check(show == prints, "%s: fingerprint: %q, want %q", a, show, prints)
						if !refused && a != "restart" {
							c.Check(strings.HasSuffix(reply, prints), "%s: reply %q, want %q", a, reply, prints)
						}
						cert, err := x509.ParseCertificate(n.SASL.External.CertBlob)
						if !c.Check(err == nil, "%s: the certificate is not one: %v", a, err) {
							return
						}
						key, err := x509.ParsePKCS8PrivateKey(n.SASL.External.PrivKeyBlob)
						if !c.Check(err == nil, "%s: the key is not one: %v", a, err) {
							return
						}
						pub := key.(crypto.Signer).Public().(interface{ Equal(crypto.PublicKey) bool })
						c.Check(pub.Equal(cert.PublicKey), "%s: the key does not belong to the certificate", a)
						now := time.Now()
						c.Check(cert.NotBefore.Before(now.Add(time.Second)) && cert.NotAfter.After(now.AddDate(5, 0, 0)), "%s: the certificate is valid from %v to %v", a, cert.NotBefore, cert.NotAfter)
					}
					text := map[string]string{"": "SASL is disabled", "PLAIN": `SASL PLAIN enabled with username "acc"`, "EXTERNAL": "SASL EXTERNAL (CertFP) enabled"}[mech]
					c.Check(strings.HasPrefix(serv("sasl status"+flag), text+"\n"), "%s: sasl status: %q", a, serv("sasl status"+flag))
					if c.Bad() {
						return
					}
				}
			})
		})
	}
}

// c30Faults has the database refuse what a command wants stored: the command
// fails, and nothing has changed.
func c30Faults(r *kit.Run) {
	cmds := []struct{ op, cmd string }{
		{"StoreChannel", "channel create #new"},
		{"StoreChannel", "channel create #new -detached true -detach-after 1h"},
		{"StoreChannel", "channel update #c -detach-after 1h -relay-detached none"},
		{"StoreChannel", "channel update #c -detached true"},
		{"StoreChannel", "channel update #e -detached false -reattach-on message"},
		{"DeleteChannel", "channel delete #c"},
		{"DeleteChannel", "channel delete #e"},
		{"StoreNetwork", "sasl set-plain other secret"},
		{"StoreNetwork", "sasl reset"},
		{"StoreNetwork", "certfp generate -key-type ed25519"},
		{"StoreNetwork", "network update -nick changed"},
		{"StoreNetwork", "network update n2 -nick changed -enabled false"},
		{"StoreNetwork", "network create -addr irc+insecure://n3.test:6667 -name n3"},
		{"DeleteNetwork", "network delete n2"},
		{"StoreUser", "user update -nick changed"},
		{"StoreUser", "user update -realname changed"},
		{"StoreUser", "user update -max-networks 9"},
		{"StoreUser", "user update -password changed"},
		{"StoreUser", "user update bob -max-networks 9"},
		{"StoreUser", "user update bob -enabled false"},
		{"StoreUser", "user update bob -admin true"},
		{"StoreUser", "user create -username zoe -disable-password"},
	}
	later := []struct {
		cmd string
		f   func(s c07State)
	}{
		{"", func(s c07State) {}},
		{"network update -auto-away true", func(s c07State) { s["root"].Nets[0].N.AutoAway = true }},
		{"user update -max-networks 8", func(s c07State) { s["root"].U.MaxNetworks = 8 }},
		{"user update bob -max-networks 8", func(s c07State) { s["bob"].U.MaxNetworks = 8 }},
		{"channel update #c -detach-on none", func(s c07State) {
			ch := s["root"].Nets[0].Chans["#c"]
			ch.DetachOn = database.FilterNone
			s["root"].Nets[0].Chans["#c"] = ch
		}},
	}
	asks := []string{"network status", "channel status", "sasl status", "user status"}
	for _, cm := range cmds {
		for _, sasl := range []string{"", "PLAIN"} {
			for _, lt := range later {
				r.World(fmt.Sprintf("fault:%s,%s,%s", cm.cmd, sasl, lt.cmd), func(c *kit.Ctx, w *kit.World) {
					g := w.Gate()
					u := w.AddUser("root", func(u *database.User) { u.Admin = true })
					rec, s := w.AddNetwork(u, "n1", func(n *database.Network) {
						if n.SASL.Mechanism = sasl; sasl != "" {
							n.SASL.Plain.Username, n.SASL.Plain.Password = "acc", "pw"
						}
					})
					w.AddChannel(rec, "#c", nil)
					w.AddChannel(rec, "#e", func(ch *database.Channel) { ch.Detached = true })
					w.AddNetwork(u, "n2", nil)
					w.AddNetwork(w.AddUser("bob", nil), "n9", nil)
					w.Start()
					cl := w.Connect("cl", kit.ConnOpts{User: "root", Network: "n1", Client: "cl"})
					serv := func(cmd string) string {
						cl.Take()
						return strings.Join(kit.Service(cl.Do("PRIVMSG BouncerServ :"+cmd)), "\n")
					}
					show := func() (l []string) {
						for _, a := range asks {
							l = append(l, kit.Sorted(strings.Split(serv(a), "\n"))...)
						}
						return l
					}
					before, stored := show(), c07Load(w.DB)
					conn := s.Live()
					conn.Take()
					c.Step(cm.cmd)
					g.Fail(cm.op, true)
					cl.Take()
					all := cl.Do("PRIVMSG BouncerServ :" + cm.cmd)
					reply := strings.Join(kit.Service(all), "\n")
					g.Fail(cm.op, false)
					for _, m := range all {
						c.Check(m.Command != "JOIN" && m.Command != "PART" && m.Command != "NICK", "%s fails, and the client is sent %s", cm.cmd, m)
					}
					c.Check(strings.Contains(reply, "error"), "%s: reply %q", cm.cmd, reply)
					after := show()
					c.Check(kit.Eq(before, after), "%s fails, and the state reported goes from %s to %s", cm.cmd, kit.Q(before), kit.Q(after))
					for _, m := range conn.Take() {
						if m.Command == "JOIN" || m.Command == "PART" || m.Command == "NICK" || m.Command == "QUIT" {
							c.Violatef("%s fails, and the server is sent %s", cm.cmd, m)
						}
					}
					if lt.cmd != "" {
						c.Step(lt.cmd)
						reply := serv(lt.cmd)
						c.Check(!strings.Contains(reply, "error"), "%s: reply %q", lt.cmd, reply)
						w.AwaitLive(s, time.Minute)
						lt.f(stored)
					}
					got := c07Load(w.DB)
					for _, n := range got.names(stored) {
						c.Check(got.render(n) == stored.render(n), "stored for %s: %s, want %s", n, got.render(n), stored.render(n))
					}
				})
			}
		}
	}
	r.Bound("faults: %d commands x 2 x %d commands after them", len(cmds), len(later))
}

// c30Many has more users than are listed.
func c30Many(r *kit.Run) {
	for _, n := range []int{1, 2, 49, 50, 51, 52, 75} {
		r.World(fmt.Sprintf("many:%d", n), func(c *kit.Ctx, w *kit.World) {
			w.AddUser("root", func(u *database.User) { u.Admin = true })
			for i := 1; i < n; i++ {
				w.AddUser(fmt.Sprintf("user%d", i), func(u *database.User) { u.Password = "x" })
			}
			w.Start()
			cl := w.Connect("cl", kit.ConnOpts{User: "root", Client: "cl"})
			cl.Take()
			l := kit.Service(cl.Do("PRIVMSG BouncerServ :user status"))
			seen := map[string]bool{}
			omitted := 0
			for _, s := range l {
				if _, err := fmt.Sscanf(s, "(%d more users omitted)", &omitted); err == nil {
					continue
				}
				name, _, _ := strings.Cut(s, " ")
				seen[strings.TrimSuffix(name, ":")] = true
			}
			c.Check(len(seen)+omitted == n && (n > 50 || omitted == 0), "%d users: %d listed, %d said to be omitted: %s", n, len(seen), omitted, kit.Q(l))
		})
	}
}
