package props

import (
	"fmt"
	"strings"

	"sojuverif/kit"
)

// c08Bind: a connection can be bound to the user's own networks only, and is
// told when it cannot be.
func c08Bind(r *kit.Run) {
	ids := []string{"OWN", "OWN2", "OTHER", "0", "-1", "-0", "99", "x", "9223372036854775808", "1.0", "1x", "n1", "*"}
	for _, first := range append([]string{""}, ids...) {
		for _, id := range ids {
			r.World("bind/"+first+"/"+id, func(c *kit.Ctx, w *kit.World) {
				u := w.AddUser("alice", nil)
				n1, _ := w.AddNetwork(u, "n1", nil)
				n2, _ := w.AddNetwork(u, "n2", nil)
				o, _ := w.AddNetwork(w.AddUser("bob", nil), "n3", nil)
				w.Start()
				num := map[string]string{"OWN": fmt.Sprint(n1.ID), "OWN2": fmt.Sprint(n2.ID), "OTHER": fmt.Sprint(o.ID)}
				cl := w.Dial("cl")
				for _, l := range []string{"CAP LS 302", "CAP REQ :sasl soju.im/bouncer-networks", "NICK alice", "USER alice 0 * :alice", "AUTHENTICATE PLAIN", "AUTHENTICATE " + b64("\x00alice\x00alice")} {
					cl.Do(l)
				}
				cl.Take()
				bound, good := "", true
				for _, id := range []string{first, id} {
					if id == "" {
						continue
					}
					s := id
					if num[id] != "" {
						s = num[id]
					}
					c.Step("BOUNCER BIND " + s)
					fails := 0
					for _, m := range cl.Do("BOUNCER BIND " + s) {
						if m.Command == "FAIL" {
							fails++
							c.Check(len(m.Params) > 2 && m.Params[0] == "BOUNCER" && m.Params[1] == "INVALID_NETID", "BIND %s: %q", s, m)
						}
					}
					switch id {
					case "OWN", "OWN2":
						c.Check(fails == 0, "BIND %s to an own network fails", s)
						bound, good = num[id], true
					case "OTHER", "99":
						// may also be refused at the end
						if fails == 0 {
							bound, good = "", false
						}
					default:
						c.Check(fails == 1, "BIND %s is not refused", s)
					}
				}
				l := cl.Do("CAP END")
				got := ""
				for _, m := range l {
					if m.Command == "005" {
						for _, p := range m.Params {
							if v, ok := strings.CutPrefix(p, "BOUNCER_NETID="); ok {
								got += v
							}
						}
					}
				}
				c.Check(cl.Registered() == good, "registered: %v, want %v", cl.Registered(), good)
				c.Check(got == bound, "the connection is bound to network %q, want %q", got, bound)
			})
		}
	}
	r.Bound("bind: all pairs of %d network numbers", len(ids))
}
