package props

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"codeberg.org/emersion/soju/config"

	"sojuverif/kit"
)

// C31: the configuration file.

// c31Want is what a configuration file means.
type c31Want struct {
	listen       []string
	hostname     string
	title, motd  string
	tls          []string
	db           [2]string
	store        [2]string
	auth         [][2]string
	upload       []string
	origins      []string
	ingress      string
	proxy        []string // CIDRs
	maxNets      int
	userIPs      []string
	inactive     time.Duration
	enableOnAuth bool
}

// c31Opt is one directive as written in the file.
type c31Opt struct {
	name string
	line string
	set  func(w *c31Want) // nil: the file is invalid
}

func c31Options() []c31Opt {
	var opts []c31Opt
	add := func(line string, set func(w *c31Want)) {
		opts = append(opts, c31Opt{strings.Fields(line)[0], line, set})
	}
	bad := func(lines ...string) {
		for _, l := range lines {
			add(l, nil)
		}
	}
	listen := func(uri string) {
		add("listen "+uri, func(w *c31Want) { w.listen = append(w.listen, uri) })
	}
	listen("ircs://")
	listen("irc+insecure://0.0.0.0:6667")
	bad("listen", "listen a b", "listen ircs:// { tls a b }")
	add("hostname irc.example.org", func(w *c31Want) { w.hostname = "irc.example.org" })
	add("hostname h", func(w *c31Want) { w.hostname = "h" })
	bad("hostname", "hostname a b")
	add(`title "My bouncer"`, func(w *c31Want) { w.title = "My bouncer" })
	add(`title My\ \"own\"`, func(w *c31Want) { w.title = `My "own"` })
	bad("title", "title My bouncer")
	add("motd /etc/motd", func(w *c31Want) { w.motd = "/etc/motd" })
	bad("motd", "motd /etc/motd x")
	add("tls c.pem k.pem", func(w *c31Want) { w.tls = []string{"c.pem", "k.pem"} })
	bad("tls", "tls c.pem", "tls c.pem k.pem x")
	add("db sqlite3 /var/lib/soju/main.db", func(w *c31Want) { w.db = [2]string{"sqlite3", "/var/lib/soju/main.db"} })
	add(`db postgres "host=/run/postgresql dbname=soju"`, func(w *c31Want) {
		w.db = [2]string{"postgres", "host=/run/postgresql dbname=soju"}
	})
	bad("db", "db sqlite3", "db sqlite3 a b")
	for _, name := range []string{"message-store", "log"} {
		add(name+" memory", func(w *c31Want) { w.store = [2]string{"memory", ""} })
		add(name+" fs /var/lib/soju/logs", func(w *c31Want) { w.store = [2]string{"fs", "/var/lib/soju/logs"} })
		add(name+" db", func(w *c31Want) { w.store = [2]string{"db", ""} })
		bad(name, name+" fs", name+" memory x", name+" db x", name+" redis", name+" redis x", name+" fs a b")
	}
	auth := func(driver, source string) {
		add(strings.TrimSpace("auth "+driver+" "+source), func(w *c31Want) {
			w.auth = append(w.auth, [2]string{driver, source})
		})
	}
	auth("internal", "")
	auth("pam", "")
	auth("http", "https://example.org/auth")
	auth("oauth2", "https://example.org/oauth")
	bad("auth", "auth internal x", "auth pam x", "auth http", "auth oauth2", "auth ldap", "auth ldap x", "auth http a b")
	add("file-upload fs /var/lib/soju/uploads", func(w *c31Want) { w.upload = []string{"fs", "/var/lib/soju/uploads"} })
	add("file-upload http https://example.org/up", func(w *c31Want) { w.upload = []string{"http", "https://example.org/up"} })
	bad("file-upload", "file-upload fs", "file-upload http", "file-upload s3", "file-upload s3 x", "file-upload fs a b")
	add("http-origin *.example.org", func(w *c31Want) { w.origins = []string{"*.example.org"} })
	add("http-origin a.example.org [bc].example.org", func(w *c31Want) {
		w.origins = []string{"a.example.org", "[bc].example.org"}
	})
	bad("http-origin [", "http-origin a.example.org [b")
	add("http-ingress https://example.org/irc", func(w *c31Want) { w.ingress = "https://example.org/irc" })
	bad("http-ingress", "http-ingress a b")
	proxy := func(args string, cidrs ...string) {
		add("accept-proxy-ip "+args, func(w *c31Want) { w.proxy = cidrs })
	}
	proxy("localhost", "127.0.0.0/8", "::1/128")
	proxy("10.0.0.0/8", "10.0.0.0/8")
	proxy("192.0.2.1/32 2001:db8::/32", "192.0.2.1/32", "2001:db8::/32")
	proxy("10.1.0.0/16 localhost 2001:db8:1::/48", "10.1.0.0/16", "127.0.0.0/8", "::1/128", "2001:db8:1::/48")
	bad("accept-proxy-ip 10.0.0.1", "accept-proxy-ip proxy.example.org", "accept-proxy-ip localhost 10.0.0.0/33", "accept-proxy-ip ::1")
	add("max-user-networks 0", func(w *c31Want) { w.maxNets = 0 })
	add("max-user-networks 3", func(w *c31Want) { w.maxNets = 3 })
	bad("max-user-networks", "max-user-networks many", "max-user-networks 1 2")
	ips := func(cidrs ...string) {
		add("upstream-user-ip "+strings.Join(cidrs, " "), func(w *c31Want) { w.userIPs = cidrs })
	}
	ips("192.0.2.0/24")
	ips("2001:db8::/64")
	ips("192.0.2.0/24", "2001:db8::/64")
	ips("2001:db8::/64", "192.0.2.0/24")
	bad("upstream-user-ip 192.0.2.0/24 198.51.100.0/24", "upstream-user-ip 2001:db8::/64 2001:db8:1::/64",
		"upstream-user-ip 192.0.2.0/24 2001:db8::/64 198.51.100.0/24", "upstream-user-ip 192.0.2.0/24 2001:db8::/64 2001:db8:1::/64",
		"upstream-user-ip 192.0.2.1", "upstream-user-ip localhost")
	dur := func(s string, d time.Duration) {
		add("disable-inactive-user "+s, func(w *c31Want) { w.inactive = d })
	}
	dur("30d", 720*time.Hour)
	dur("1d", 24*time.Hour)
	dur("0.5d", 12*time.Hour)
	dur("365.25d", 8766*time.Hour)
	bad("disable-inactive-user", "disable-inactive-user 30", "disable-inactive-user 30h", "disable-inactive-user d",
		"disable-inactive-user -1d", "disable-inactive-user -0.5d", "disable-inactive-user xd", "disable-inactive-user 1d 2d", "disable-inactive-user 1dd")
	add("enable-user-on-auth true", func(w *c31Want) { w.enableOnAuth = true })
	add("enable-user-on-auth false", func(w *c31Want) { w.enableOnAuth = false })
	bad("enable-user-on-auth", "enable-user-on-auth maybe", "enable-user-on-auth true false")
	bad("frobnicate", "frobnicate x", "Hostname irc.example.org", `title "open`)
	none := func(w *c31Want) {}
	opts = append(opts, c31Opt{"", "# hostname other.example.org", none}, c31Opt{"", "", none})
	return opts
}

func (w *c31Want) render() string {
	var b strings.Builder
	fmt.Fprintf(&b, "listen %q\nhostname %q\ntitle %q\nmotd %q\ntls %q\ndb %q\nmessage-store %q\nauth %q\nfile-upload %q\nhttp-origin %q\nhttp-ingress %q\nmax-user-networks %d\nupstream-user-ip %q\ndisable-inactive-user %v\nenable-user-on-auth %v\n",
		w.listen, w.hostname, w.title, w.motd, w.tls, w.db, w.store, w.auth, w.upload, w.origins, w.ingress, w.maxNets, w.userIPs, w.inactive, w.enableOnAuth)
	for _, s := range c31Probes {
		ip := net.ParseIP(s)
		ok := false
		for _, cidr := range w.proxy {
			_, n, err := net.ParseCIDR(cidr)
			if err != nil {
				panic(err)
			}
			ok = ok || n.Contains(ip)
		}
		fmt.Fprintf(&b, "proxy %v %v\n", s, ok)
	}
	return b.String()
}

var c31Probes = []string{
	"127.0.0.1", "127.255.255.255", "128.0.0.1", "126.255.255.255", "::1", "::2", "10.0.0.1", "10.1.2.3", "10.2.0.1", "11.0.0.1",
	"192.0.2.1", "192.0.2.2", "2001:db8::1", "2001:db8:1::1", "2001:db9::1", "::ffff:10.1.0.1", "0.0.0.0", "::",
}

func c31Got(s *config.Server) string {
	var b strings.Builder
	var tls, upload, ips []string
	if s.TLS != nil {
		tls = []string{s.TLS.CertPath, s.TLS.KeyPath}
	}
	if s.FileUpload != nil {
		upload = []string{s.FileUpload.Driver, s.FileUpload.Source}
	}
	var auth [][2]string
	for _, a := range s.Auth {
		auth = append(auth, [2]string{a.Driver, a.Source})
	}
	for _, n := range s.UpstreamUserIPs {
		ips = append(ips, n.String())
	}
	fmt.Fprintf(&b, "listen %q\nhostname %q\ntitle %q\nmotd %q\ntls %q\ndb %q\nmessage-store %q\nauth %q\nfile-upload %q\nhttp-origin %q\nhttp-ingress %q\nmax-user-networks %d\nupstream-user-ip %q\ndisable-inactive-user %v\nenable-user-on-auth %v\n",
		s.Listen, s.Hostname, s.Title, s.MOTDPath, tls, [2]string{s.DB.Driver, s.DB.Source}, [2]string{s.MsgStore.Driver, s.MsgStore.Source},
		auth, upload, s.HTTPOrigins, s.HTTPIngress, s.MaxUserNetworks, ips, s.DisableInactiveUsersDelay, s.EnableUsersOnAuth)
	for _, p := range c31Probes {
		fmt.Fprintf(&b, "proxy %v %v\n", p, s.AcceptProxyIPs.Contains(net.ParseIP(p)))
	}
	return b.String()
}

// c31Oracle says what the lines mean; ok is false when the file is invalid,
// judged is false when the manual doesn't settle what it means.
func c31Oracle(host string, file []c31Opt) (want string, ok, judged bool) {
	w := &c31Want{
		hostname: host, db: [2]string{"sqlite3", "soju.db"}, store: [2]string{"memory", ""}, maxNets: -1,
	}
	seen := map[string]int{}
	for _, o := range file {
		if o.name != "" {
			seen[o.name]++
		}
	}
	if seen["log"] > 0 && seen["message-store"] > 0 {
		return "", false, false
	}
	for name, n := range seen {
		if n > 1 && name != "listen" && name != "auth" {
			return "", false, true
		}
	}
	for _, o := range file {
		if o.set == nil {
			return "", false, true
		}
		o.set(w)
	}
	if len(w.auth) == 0 {
		w.auth = [][2]string{{"internal", ""}}
	}
	if w.ingress == "" {
		w.ingress = "https://" + w.hostname
	}
	return w.render(), true, true
}

func TestC31(t *testing.T) {
	run := kit.Start(t, "C31")
	host, err := os.Hostname()
	if err != nil {
		host = "localhost"
	}
	dir := t.TempDir()
	opts := c31Options()
	n := 0
	check := func(c *kit.Ctx, file []c31Opt, eol bool) {
		n++
		var lines []string
		for _, o := range file {
			lines = append(lines, o.line)
		}
		text := strings.Join(lines, "\n")
		if eol {
			text += "\n"
		}
		want, ok, judged := c31Oracle(host, file)
		if !judged {
			return
		}
		name := filepath.Join(dir, "config")
		if err := os.WriteFile(name, []byte(text), 0600); err != nil {
			panic(err)
		}
		srv, err := config.Load(name)
		if !ok {
			c.Check(err != nil, "the configuration file %q is invalid but is accepted", text)
			return
		}
		if err != nil {
			c.Violatef("the configuration file %q is valid but is refused: %v", text, err)
			return
		}
		if got := c31Got(srv); got != want {
			c.Violatef("the configuration file %q means\n%s\nexpected\n%s", text, got, want)
		}
	}

	run.Plain("default", func(c *kit.Ctx) {
		want, _, _ := c31Oracle(host, nil)
		c.Check(c31Got(config.Defaults()) == want, "without a configuration file the settings are\n%s\nexpected\n%s", c31Got(config.Defaults()), want)
		_, err := config.Load(filepath.Join(dir, "missing"))
		c.Check(err != nil, "a missing configuration file is accepted")
		check(c, nil, false)
		check(c, nil, true)
	})
	// Every file of one and two directives, in every order
	for i := range opts {
		run.Plain(fmt.Sprintf("pairs/%d %s", i, opts[i].line), func(c *kit.Ctx) {
			n = 0
			c.Step(opts[i].line)
			check(c, opts[i:i+1], false)
			check(c, opts[i:i+1], true)
			for j := range opts {
				check(c, []c31Opt{opts[i], opts[j]}, true)
			}
			run.Count(n, n)
		})
	}
	// Every file of three valid directives, and every invalid directive
	// between two valid ones
	var valid []c31Opt
	for _, o := range opts {
		if o.set != nil {
			valid = append(valid, o)
		}
	}
	for i := range valid {
		run.Plain(fmt.Sprintf("triples/%d %s", i, valid[i].line), func(c *kit.Ctx) {
			n = 0
			c.Step(valid[i].line)
			for j := range valid {
				for k := range valid {
					check(c, []c31Opt{valid[i], valid[j], valid[k]}, true)
				}
			}
			run.Count(n, n)
		})
	}
	if run.Thorough() {
		for i := range valid {
			for j := range opts {
				run.Plain(fmt.Sprintf("all/%d %s/%d %s", i, valid[i].line, j, opts[j].line), func(c *kit.Ctx) {
					n = 0
					for k := range valid {
						check(c, []c31Opt{valid[i], opts[j], valid[k]}, true)
						for l := range valid {
							if l < k && opts[j].set != nil {
								check(c, []c31Opt{valid[i], opts[j], valid[k], valid[l]}, true)
							}
						}
					}
					run.Count(n, n)
				})
			}
		}
	}
	// A file with everything in it: each directive in each of its valid forms
	// among the first form of the others
	byName := map[string][]c31Opt{}
	var names []string
	for _, o := range valid {
		if o.name == "" || o.name == "log" {
			continue
		}
		if byName[o.name] == nil {
			names = append(names, o.name)
		}
		byName[o.name] = append(byName[o.name], o)
	}
	for rot := range names {
		run.Plain(fmt.Sprintf("full/%d", rot), func(c *kit.Ctx) {
			n = 0
			c.Step(fmt.Sprintf("full %d", rot))
			order := append(append([]string(nil), names[rot:]...), names[:rot]...)
			for _, vary := range names {
				for _, o := range byName[vary] {
					for _, vary2 := range names {
						for _, o2 := range byName[vary2] {
							var file []c31Opt
							for _, name := range order {
								switch name {
								case vary:
									file = append(file, o)
								case vary2:
									file = append(file, o2)
								default:
									file = append(file, byName[name][0])
								}
							}
							check(c, file, true)
						}
					}
				}
			}
			run.Count(n, n)
		})
	}
	run.Bound("configuration files of up to 3 directives out of %d forms (%d valid), and of all %d directives with any two in any of their forms", len(opts), len(valid), len(names))
}
