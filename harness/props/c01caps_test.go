package props

import (
	"fmt"
	"slices"
	"strings"

	"sojuverif/kit"
)

// c01Caps changes what the server offers between messages: whether it is the
// server or the bouncer that echoes a message must make no difference.
func c01Caps(r *kit.Run) {
	all := []string{"labeled-response", "echo-message", "batch", "message-tags"}
	for _, first := range [][]string{all, {"echo-message", "message-tags"}, {"labeled-response", "batch"}, nil} {
		for _, nak := range []bool{false, true} {
			first, nak := first, nak
			offered := func(seq []string) []string {
				l := slices.Clone(first)
				for _, a := range seq {
					op, c, _ := strings.Cut(a, " ")
					switch op {
					case "new":
						l = append(l, c)
					case "del":
						l = slices.DeleteFunc(l, func(o string) bool { return o == c })
					case "reconnect":
						l = slices.Clone(first)
					}
				}
				return l
			}
			r.Tree(fmt.Sprintf("caps/%s,%v", strings.Join(first, "+"), nak), r.Pick(4, 5), func(seq []string) []string {
				l := []string{"say plain", "say echo", "up", "reconnect"}
				for _, c := range all {
					if slices.Contains(offered(seq), c) {
						l = append(l, "del "+c)
					} else {
						l = append(l, "new "+c)
					}
				}
				return l
			}, func(key string, seq []string) {
				r.World(key, func(c *kit.Ctx, w *kit.World) {
					c01CapsExec(c, w, first, nak, append(slices.Clone(seq), "say plain", "say echo", "up"))
				})
			})
		}
	}
}

func c01CapsExec(c *kit.Ctx, w *kit.World, first []string, nak bool, seq []string) {
	u := w.AddUser("alice", nil)
	n, srv := w.AddNetwork(u, "net", nil)
	w.AddChannel(n, "#c", nil)
	srv.Caps = first
	var sent []string
	srv.Hook = func(uc *kit.UpConn, m *ircMessage) bool {
		switch m.Command {
		case "CAP":
			// a server that refuses to echo
			if nak && m.Params[0] == "REQ" && slices.Contains(strings.Fields(m.Params[1]), "echo-message") {
				uc.Send(":srv CAP * NAK :" + m.Params[1])
				return true
			}
		case "PRIVMSG":
			sent = append(sent, strings.Join(m.Params, " "))
		}
		return false
	}
	w.Start()
	cls := map[string]*kit.Client{}
	for _, name := range []string{"plain", "echo", "other"} {
		o := kit.ConnOpts{User: "alice", Network: "net", Client: name}
		if name == "echo" {
			o.Caps = []string{"echo-message"}
		}
		cls[name] = w.Connect(name, o)
		cls[name].Take()
	}
	id := 0
	check := func(what, text, except string) {
		w.Settle()
		for _, name := range kit.Keys(cls) {
			var got []string
			for _, m := range kit.Select(cls[name].Take(), "PRIVMSG", "NOTICE") {
				got = append(got, m.Params[1])
			}
			want := []string{text}
			if name == except || text == "" {
				want = nil
			}
			c.Check(kit.Eq(got, want), "%s: client %s receives %s, want %s", what, name, kit.Q(got), kit.Q(want))
		}
	}
	for _, a := range seq {
		if c.Bad() {
			return
		}
		c.Step(a)
		op, arg, _ := strings.Cut(a, " ")
		uc := srv.Live()
		switch op {
		case "new":
			uc.Send(":srv CAP * NEW :" + arg)
			check(a, "", "")
		case "del":
			delete(uc.Caps, arg)
			uc.Send(":srv CAP * DEL :" + arg)
			check(a, "", "")
		case "reconnect":
			srv.Drop()
			w.Settle()
			if !c.Check(srv.Live() != nil, "the bouncer does not reconnect at once") {
				return
			}
			for _, cl := range cls {
				cl.Take()
			}
		case "up":
			id++
			uc.Send(fmt.Sprintf(":bob!b@b PRIVMSG #c :m%d", id))
			check(a, fmt.Sprintf("m%d", id), "")
		case "say":
			for _, target := range []string{"#c", "bob"} {
				id++
				sent = nil
				cls[arg].Send(fmt.Sprintf("PRIVMSG %s :m%d", target, id))
				except := arg
				if arg == "echo" {
					except = ""
				}
				check(a, fmt.Sprintf("m%d", id), except)
				c.Check(kit.Eq(sent, []string{fmt.Sprintf("%s m%d", target, id)}), "%s: the server received %s", a, kit.Q(sent))
			}
		}
	}
}
