package kit

import (
	"fmt"
	"sort"
	"strings"

	"gopkg.in/irc.v4"
)

// ServiceNick is the bouncer's service nickname.
const ServiceNick = "BouncerServ"

// Texts selects PRIVMSG/NOTICE/TAGMSG messages that do not come from the
// bouncer's service, as "CMD from target text".
func Texts(msgs []*irc.Message) []string {
	var out []string
	for _, m := range msgs {
		switch m.Command {
		case "PRIVMSG", "NOTICE", "TAGMSG":
		default:
			continue
		}
		from := ""
		if m.Prefix != nil {
			from = m.Prefix.Name
		}
		if from == ServiceNick {
			continue
		}
		out = append(out, m.Command+" "+from+" "+strings.Join(m.Params, " "))
	}
	return out
}

// Service selects the texts sent by the bouncer's service.
func Service(msgs []*irc.Message) []string {
	var out []string
	for _, m := range msgs {
		if (m.Command == "PRIVMSG" || m.Command == "NOTICE") && m.Prefix != nil && m.Prefix.Name == ServiceNick {
			out = append(out, m.Params[len(m.Params)-1])
		}
	}
	return out
}

// Select returns the messages with one of the given commands.
func Select(msgs []*irc.Message, cmds ...string) []*irc.Message {
	var out []*irc.Message
	for _, m := range msgs {
		for _, c := range cmds {
			if m.Command == c {
				out = append(out, m)
				break
			}
		}
	}
	return out
}

// Lines renders messages without tags.
func Lines(msgs []*irc.Message) []string {
	var out []string
	for _, m := range msgs {
		mm := m.Copy()
		mm.Tags = nil
		out = append(out, mm.String())
	}
	return out
}

// CmdLines renders messages without tags and prefix.
func CmdLines(msgs []*irc.Message) []string {
	var out []string
	for _, m := range msgs {
		out = append(out, m.Command+" "+strings.Join(m.Params, " "))
	}
	return out
}

// Eq compares two string lists.
func Eq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// EqSet compares two string lists as multisets.
func EqSet(a, b []string) bool {
	a = append([]string(nil), a...)
	b = append([]string(nil), b...)
	sort.Strings(a)
	sort.Strings(b)
	return Eq(a, b)
}

// Q renders a list for messages.
func Q(l []string) string { return fmt.Sprintf("%q", l) }

// Sorted returns a sorted copy.
func Sorted(l []string) []string {
	l = append([]string(nil), l...)
	sort.Strings(l)
	return l
}

// Keys returns the sorted keys of a map.
func Keys[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
