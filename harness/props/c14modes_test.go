package props

import (
	"sort"
	"strings"

	"sojuverif/kit"
)

// c14LateModes: the server's description of a channel's modes takes its time.
// Questions asked in the meantime are answered in the end, and everybody's
// picture of the modes is the server's.

func c14ApplyModes(m map[string]string, l []string) {
	sign, n := byte('+'), 1
	for i := 0; i < len(l[0]); i++ {
		switch ch := l[0][i]; ch {
		case '+', '-':
			sign = ch
		default:
			arg := ""
			if ch == 'k' || ch == 'l' && sign == '+' {
				if n < len(l) {
					arg = l[n]
				}
				n++
			}
			if sign == '+' {
				m[string(ch)] = arg
			} else {
				delete(m, string(ch))
			}
		}
	}
}

func c14ShowModes(m map[string]string) string {
	if m == nil {
		return "unknown"
	}
	var l []string
	for k, v := range m {
		if v != "" {
			k += "=" + v
		}
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func c14LateModes(r *kit.Run) {
	acts := []string{"324", "ask ever", "ask bare", "ask late", "attach", "+m", "-t", "+k key", "+l 5", "-lk+l key 7", "rejoin", "329"}
	depth := r.Pick(4, 5)
	r.Tree("modes", depth, func(seq []string) []string {
		late := false
		for _, a := range seq {
			late = late || a == "attach"
		}
		var out []string
		for _, a := range acts {
			if a == "attach" && late || a == "ask late" && !late || len(seq) > 0 && seq[len(seq)-1] == a {
				continue
			}
			out = append(out, a)
		}
		return out
	}, func(key string, seq []string) {
		r.World(key, func(c *kit.Ctx, w *kit.World) {
			u := w.AddUser("alice", nil)
			rec, s := w.AddNetwork(u, "n1", nil)
			w.AddChannel(rec, "#c", nil)
			s.ISupport = []string{"CASEMAPPING=ascii", "soju.im/SAFERATE", "CHANTYPES=#", "CHANMODES=b,k,l,imnpst"}
			pending := 0 // MODE requests the server has yet to answer
			s.Hook = func(uc *kit.UpConn, m *ircMessage) bool {
				if m.Command == "MODE" && len(m.Params) == 1 {
					pending++
					return true
				}
				return false
			}
			w.Start()
			cls := map[string]*kit.Client{}
			view := map[string]map[string]string{}
			asked := map[string]bool{}
			attach := func(name string) {
				cls[name] = w.Connect(name, kit.ConnOpts{User: "alice", Network: "n1", Client: name})
				view[name] = nil
			}
			attach("ever")
			attach("bare")
			modes := map[string]string{"n": "", "t": ""}
			look := func() {
				w.Settle()
				for _, n := range kit.Keys(cls) {
					for _, m := range cls[n].Take() {
						switch {
						case m.Command == "JOIN" || m.Command == "PART":
							view[n] = nil
						case m.Command == "324" && len(m.Params) > 2:
							view[n] = map[string]string{}
							c14ApplyModes(view[n], m.Params[2:])
							asked[n] = false
						case m.Command == "MODE" && len(m.Params) > 1 && m.Params[0] == "#c" && view[n] != nil:
							c14ApplyModes(view[n], m.Params[1:])
						}
					}
				}
			}
			up := s.Live()
			answer := func() {
				for ; pending > 0; pending-- {
					l := "+"
					var args []string
					for _, k := range kit.Keys(modes) {
						l += k
						if modes[k] != "" {
							args = append(args, modes[k])
						}
					}
					up.Send(":n1.test 324 " + up.Nick + " " + strings.Join(append([]string{"#c", l}, args...), " "))
				}
				look()
			}
			look()
			step := func(a string) {
				switch f := strings.SplitN(a, " ", 2); f[0] {
				case "324":
					answer()
				case "329":
					up.Send(":n1.test 329 " + up.Nick + " #c 12345")
				case "ask":
					cls[f[1]].Send("MODE #c")
					asked[f[1]] = true
				case "attach":
					attach("late")
				case "rejoin":
					up.Send(":" + up.Mask() + " PART #c")
					modes = map[string]string{"n": "", "t": ""}
					up.SendJoin("#c")
					pending = 0
				default:
					up.Send(":bob!b@h MODE #c " + a)
					c14ApplyModes(modes, strings.Fields(a))
				}
				look()
			}
			check := func(when string) {
				for _, n := range kit.Keys(cls) {
					c.Check(!asked[n], "%s: client %s never got an answer to its MODE #c", when, n)
					c.Check(view[n] == nil || c14ShowModes(view[n]) == c14ShowModes(modes), "%s: client %s sees the modes %s, the server has %s", when, n, c14ShowModes(view[n]), c14ShowModes(modes))
				}
			}
			for _, a := range seq {
				c.Step(a)
				step(a)
				for _, n := range kit.Keys(cls) {
					c.Check(view[n] == nil || c14ShowModes(view[n]) == c14ShowModes(modes), "client %s sees the modes %s, the server has %s", n, c14ShowModes(view[n]), c14ShowModes(modes))
				}
			}
			answer()
			check("once the server has answered")
			for _, n := range kit.Keys(cls) {
				step("ask " + n)
				answer()
			}
			check("asked again")
			for _, n := range kit.Keys(cls) {
				c.Check(view[n] != nil, "client %s has never been told the modes", n)
			}
		})
	})
}
