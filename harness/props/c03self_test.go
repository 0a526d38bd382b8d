package props

import (
	"fmt"
	"strings"

	"sojuverif/kit"
)

// c03Self: questions about the bouncer's service and, without a network, about
// oneself are answered by the bouncer, whatever the spelling, and never reach
// a server or another client.
func c03Self(r *kit.Run) {
	opts := map[string]string{"": "", "%tn,7": "7 N", "%nu": "U N", "%cuhnfar": "* U H N F A R", "%t,1": "1", "o": ""}
	for _, env := range []string{"bound", "unbound", "down"} {
		for _, target := range []string{"BouncerServ", "bouncerserv", "BOUNCERSERV", "SELF", "self", "nobody", "*"} {
			for _, cmd := range append([]string{"WHOIS", "WHOIS2", "WHOISlist"}, kit.Sorted(kit.Keys(opts))...) {
				if env == "bound" && (target == "nobody" || target == "*") || env != "unbound" && strings.EqualFold(target, "self") {
					continue // the server's business
				}
				if env == "down" && !strings.EqualFold(target, "BouncerServ") {
					continue
				}
				r.World(fmt.Sprintf("self/%s/%s/%s", env, target, cmd), func(c *kit.Ctx, w *kit.World) {
					u := w.AddUser("alice", nil)
					_, s := w.AddNetwork(u, "n1", nil)
					if env == "down" {
						s.Refuse = true
					}
					w.Start()
					net := "n1"
					if env == "unbound" {
						net = ""
					}
					cl := w.Connect("cl", kit.ConnOpts{User: "alice", Network: net, Client: "cl"})
					other := w.Connect("other", kit.ConnOpts{User: "alice", Network: net, Client: "other"})
					if !c.Check(cl.Registered() && other.Registered(), "not registered") {
						return
					}
					s.Take()
					cl.Take()
					other.Take()
					name := strings.NewReplacer("SELF", "ALICE", "self", "alice").Replace(target)
					nick := ""
					switch strings.ToLower(name) {
					case "bouncerserv":
						nick = "BouncerServ"
					case "alice":
						nick = "alice"
					}
					line := "WHO " + name + " " + cmd
					switch cmd {
					case "":
						line = "WHO " + name
					case "WHOIS":
						line = "WHOIS " + name
					case "WHOIS2":
						line = "WHOIS " + name + " " + name
					case "WHOISlist":
						line = "WHOIS " + name + ",x"
					}
					c.Step(line)
					cl.Send(line)
					w.Settle()
					l := cl.Take()
					var got []string
					end := 0
					isWhois := strings.HasPrefix(cmd, "WHOIS")
					for _, m := range l {
						switch m.Command {
						case "315", "318", "400", "401", "421", "402":
							end++
							c.Check(m.Command != "315" || len(m.Params) > 1 && m.Params[1] == name, "%s ends with %q", line, m)
						case "311":
							got = append(got, m.Params[1])
						case "352":
							got = append(got, m.Params[5])
							c.Check(cmd == "" || cmd == "o", "%s: plain answer %q", line, m)
						case "354":
							want := strings.Fields(opts[cmd])
							ok := len(m.Params) == len(want)+1
							for i, f := range want {
								switch f {
								case "N":
									ok = ok && strings.EqualFold(m.Params[i+1], nick)
								case "U", "H", "F", "A", "R":
								default:
									ok = ok && m.Params[i+1] == f
								}
							}
							c.Check(ok, "%s is answered %q", line, m)
							got = append(got, nick)
						case "312", "313", "330", "335":
							c.Check(isWhois && len(m.Params) > 1 && m.Params[1] == nick, "%s is answered %q", line, m)
						default:
							c.Violatef("%s is answered %q", line, m)
						}
					}
					var want []string
					if nick != "" {
						want = []string{nick}
					}
					c.Check(kit.Eq(got, want), "%s tells about %s, want %s (%s)", line, kit.Q(got), kit.Q(want), kit.Q(kit.Lines(l)))
					c.Check(end == 1, "%s is ended %d times (%s)", line, end, kit.Q(kit.Lines(l)))
					c.Check(len(other.Take()) == 0, "%s: the other client hears of it", line)
					c.Check(len(s.Take()) == 0, "%s reaches the server", line)
				})
			}
		}
	}
}
