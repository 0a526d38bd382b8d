package props

import (
	"fmt"
	"strings"

	"sojuverif/kit"
)

// c02Two: the same client is connected to several networks at once, as most
// are. What it has missed is a matter of each network on its own.
func c02Two(r *kit.Run) {
	nets := []string{"n1", "n2", ""}
	var acts []string
	for _, n := range nets {
		acts = append(acts, "toggle "+n)
	}
	acts = append(acts, "msg n1", "msg n2", "dm n2")
	for _, store := range []string{"memory", "db"} {
		r.Tree("two/"+store, r.Pick(4, 5), func([]string) []string { return acts }, func(key string, seq []string) {
			r.World(key, func(c *kit.Ctx, w *kit.World) {
				w.Cfg.MsgStoreDriver = store
				u := w.AddUser("alice", nil)
				srv := map[string]*kit.UpServer{}
				for _, n := range nets[:2] {
					rec, s := w.AddNetwork(u, n, nil)
					w.AddChannel(rec, "#c", nil)
					srv[n] = s
				}
				w.Start()
				cl := map[string]*kit.Client{}
				missed := map[string][]string{}
				id := 0
				msg := func(n, to string) {
					id++
					srv[n].Do(fmt.Sprintf(":bob!u@h PRIVMSG %s :m%d", to, id))
					text := fmt.Sprintf("PRIVMSG bob %s m%d", to, id)
					for _, o := range nets {
						var want, got []string
						if cl[o] != nil {
							got = kit.Texts(cl[o].Take())
						}
						if o == n && cl[o] != nil {
							want = []string{text}
						} else if o == n {
							missed[n] = append(missed[n], text)
						}
						c.Check(kit.Eq(got, want), "the client on network %q receives %s, want %s", o, kit.Q(got), kit.Q(want))
					}
				}
				toggle := func(n string) {
					if cl[n] != nil {
						cl[n].Quit()
						delete(cl, n)
						return
					}
					cl[n] = w.Connect("x"+n, kit.ConnOpts{User: "alice", Network: n, Client: "x"})
					got := kit.Texts(cl[n].Take())
					c.Check(kit.EqSet(got, missed[n]), "the client reconnecting to network %q receives %s, has missed %s", n, kit.Q(got), kit.Q(missed[n]))
					delete(missed, n)
				}
				for _, n := range nets {
					toggle(n)
				}
				msg("n1", "#c")
				msg("n2", "#c")
				msg("n2", "alice")
				for _, a := range seq {
					c.Step(a)
					op, n, _ := strings.Cut(a, " ")
					switch op {
					case "toggle":
						toggle(n)
					case "msg":
						msg(n, "#c")
					case "dm":
						msg(n, "alice")
					}
					if c.Bad() {
						return
					}
				}
				for _, n := range nets {
					if cl[n] == nil {
						toggle(n)
					}
				}
			})
		})
	}
}
