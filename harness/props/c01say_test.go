package props

import (
	"fmt"
	"strings"

	"codeberg.org/emersion/soju/database"
	"sojuverif/kit"
)

// c01Say: a client addresses lists of targets that mix channels, users, the
// bouncer's service, the user itself and everyone on the bouncer. Every target
// must be served as if it had been addressed alone.
func c01Say(r *kit.Run) {
	type client struct {
		name, user, net string
		echo, tags      bool
	}
	clients := []client{
		{"p1", "root", "n1", false, false},
		{"e1", "root", "n1", true, true},
		{"p2", "root", "n2", false, true},
		{"p0", "root", "", false, false},
		{"e0", "root", "", true, true},
		{"b1", "bruno", "n3", true, true},
		{"b2", "bruno", "n3", false, false},
		{"b0", "bruno", "", false, true},
	}
	targets := []string{"#c", "bob", "BouncerServ", "bouncerserv", "SELF", "$bouncer", "$*"}
	var lists [][]string
	var gen func(l []string)
	gen = func(l []string) {
		if len(l) > 0 {
			lists = append(lists, append([]string(nil), l...))
		}
		if len(l) == r.Pick(2, 3) {
			return
		}
		for _, t := range targets {
			gen(append(l, t))
		}
	}
	gen(nil)
	for _, variant := range []string{"plain", "tags", "echo"} {
		for _, snd := range clients {
			variant, snd := variant, snd
			r.World(fmt.Sprintf("say/%s/%s", variant, snd.name), func(c *kit.Ctx, w *kit.World) {
				srvs := map[string]*kit.UpServer{}
				for _, u := range []string{"root", "bruno"} {
					rec := w.AddUser(u, func(rec *database.User) { rec.Admin = u == "root" })
					nets := []string{"n1", "n2"}
					if u == "bruno" {
						nets = []string{"n3"}
					}
					for _, n := range nets {
						nr, s := w.AddNetwork(rec, n, nil)
						w.AddChannel(nr, "#c", nil)
						switch variant {
						case "tags":
							s.Caps = []string{"message-tags", "server-time"}
						case "echo":
							s.Caps = []string{"message-tags", "server-time", "labeled-response", "batch", "echo-message"}
						}
						srvs[n] = s
					}
				}
				w.Start()
				cls := map[string]*kit.Client{}
				hasTags := map[string]bool{}
				nick := map[string]string{}
				for _, d := range clients {
					var caps []string
					if d.echo {
						caps = append(caps, "echo-message")
					}
					if d.tags && variant != "plain" {
						caps = append(caps, "message-tags")
						hasTags[d.name] = true
					}
					cl := w.Connect(d.name, kit.ConnOpts{User: d.user, Network: d.net, Client: d.name, Caps: caps})
					if !c.Check(cl.Registered(), "client %s could not register", d.name) {
						return
					}
					cl.Take()
					cls[d.name] = cl
					nick[d.name] = d.user
				}
				for _, s := range srvs {
					s.Take()
				}
				admin := snd.user == "root"
				// how much the service answers
				cls[snd.name].Send("PRIVMSG BouncerServ :nosuchcommand")
				w.Settle()
				answer := len(kit.Service(cls[snd.name].Take()))
				c.Check(answer > 0, "the service doesn't answer")
				for _, cl := range cls {
					cl.Take()
				}
				for _, list := range lists {
					for ci, cmd := range []string{"PRIVMSG", "NOTICE", "TAGMSG"} {
						if cmd == "TAGMSG" && (variant == "plain" || !hasTags[snd.name]) {
							continue
						}
						tag, ctag := "", ""
						if hasTags[snd.name] && (ci != 1 || len(list) == 1) {
							tag, ctag = "@+x=y;foo=bar;+z ", "+x=y,+z "
						}
						// what each target alone gives
						want := map[string][]string{}
						var wantUp []string
						replies, errs := 0, 0
						skip := false
						var names []string
						for i, t := range list {
							name := strings.ReplaceAll(t, "SELF", nick[snd.name])
							names = append(names, name)
							text := cmd + " " + name
							if cmd != "TAGMSG" {
								text += " nosuchcommand"
							}
							give := func(d client, from string) {
								if cmd == "TAGMSG" && !hasTags[d.name] {
									return
								}
								s := from + " " + text
								if hasTags[d.name] && (variant != "echo" || d.net == "" || from == kit.ServiceNick || strings.EqualFold(name, kit.ServiceNick)) {
									s = ctag + s
								}
								want[d.name] = append(want[d.name], s)
							}
							switch {
							case t == "$bouncer" || t == "$*" && snd.net == "":
								if !admin {
									errs++
									skip = skip || i != len(list)-1
									break
								}
								for _, d := range clients {
									give(d, kit.ServiceNick)
								}
							case t == "SELF" && snd.net == "":
								give(snd, snd.user)
							case strings.EqualFold(t, kit.ServiceNick):
								if snd.echo {
									give(snd, snd.user)
								}
								if cmd == "PRIVMSG" {
									replies++
								}
							case snd.net == "":
								errs++
								skip = skip || i != len(list)-1
							default:
								if t == "$*" && variant == "echo" {
									skip = true // servers hand such messages out in their own way
								}
								up := cmd + " " + name
								if cmd != "TAGMSG" {
									up += " nosuchcommand"
								}
								if variant != "plain" {
									up = ctag + up
								}
								wantUp = append(wantUp, up)
								for _, d := range clients {
									if d.net == snd.net && (d.name != snd.name || d.echo) {
										give(d, snd.user)
									}
								}
							}
						}
						if skip {
							continue // what an error in the middle does is not specified
						}
						line := tag + cmd + " " + strings.Join(names, ",")
						if cmd != "TAGMSG" {
							line += " :nosuchcommand"
						}
						if cmd == "TAGMSG" && ctag == "" {
							continue
						}
						cls[snd.name].Send(line)
						w.Settle()
						if len(wantUp) > 0 {
							w.SleepCoarse(20e9) // spare the send budget
						}
						c.Step(line)
						for _, d := range clients {
							var got []string
							svc, bad := 0, 0
							for _, m := range cls[d.name].Take() {
								switch m.Command {
								case "PRIVMSG", "NOTICE", "TAGMSG":
								case "PING", "PONG":
									continue
								default:
									bad++
									continue
								}
								from := ""
								if m.Prefix != nil {
									from = m.Prefix.Name
								}
								if from == kit.ServiceNick && m.Params[0] == nick[d.name] {
									svc++
									continue
								}
								s := ""
								var tags []string
								for _, k := range kit.Sorted(kit.Keys(m.Tags)) {
									if k == "time" || k == "batch" || k == "msgid" {
										continue
									}
									if k == "foo" && snd.net == "" && m.Params[0] == nick[d.name] {
										continue // a note to oneself
									}
									t := k
									if v := string(m.Tags[k]); v != "" {
										t += "=" + v
									}
									tags = append(tags, t)
								}
								if len(tags) > 0 {
									s = strings.Join(tags, ",") + " "
								}
								got = append(got, s+from+" "+m.Command+" "+strings.Join(m.Params, " "))
							}
							// broadcasts travel on their own
							ok := kit.EqSet(got, want[d.name])
							if variant != "echo" {
								ok = ok && kit.Eq(c01NoBroadcast(got), c01NoBroadcast(want[d.name]))
							}
							c.Check(ok, "%s (bound to %q) says %q: %s receives %s, want %s", snd.name, snd.net, line, d.name, kit.Q(got), kit.Q(want[d.name]))
							es, ee := 0, 0
							if d.name == snd.name {
								es, ee = replies*answer, errs
							}
							c.Check(svc == es && bad == ee, "%s says %q: %s receives %d service replies and %d other lines, want %d and %d", snd.name, line, d.name, svc, bad, es, ee)
						}
						for _, n := range []string{"n1", "n2", "n3"} {
							var got, wl []string
							for _, m := range srvs[n].Take() {
								if m.Command == "PING" || m.Command == "PONG" {
									continue
								}
								s := ""
								var tags []string
								for _, k := range kit.Sorted(kit.Keys(m.Tags)) {
									if k == "label" {
										continue
									}
									t := k
									if v := string(m.Tags[k]); v != "" {
										t += "=" + v
									}
									tags = append(tags, t)
								}
								if len(tags) > 0 {
									s = strings.Join(tags, ",") + " "
								}
								got = append(got, s+m.Command+" "+strings.Join(m.Params, " "))
							}
							if n == snd.net {
								wl = wantUp
							}
							c.Check(kit.Eq(got, wl), "%s says %q: server %s receives %s, want %s", snd.name, line, n, kit.Q(got), kit.Q(wl))
						}
						if c.Bad() {
							return
						}
					}
				}
			})
		}
	}
	r.Bound("say: all lists of up to %d of %d kinds of targets x PRIVMSG/NOTICE/TAGMSG x %d senders", r.Pick(2, 3), len(targets), len(clients))
}

func c01NoBroadcast(l []string) []string {
	var out []string
	for _, s := range l {
		if !strings.Contains(s, kit.ServiceNick+" PRIVMSG $") && !strings.Contains(s, kit.ServiceNick+" NOTICE $") && !strings.Contains(s, kit.ServiceNick+" TAGMSG $") {
			out = append(out, s)
		}
	}
	return out
}
