package props

import (
	"bufio"
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"codeberg.org/emersion/soju/database"

	"sojuverif/kit"
)

// C32: the programs. The bouncer runs as the separate process users run, with
// its configuration file, sockets and signals, in a scratch directory.

const c32Timeout = 30 * time.Second

// c32Env is the scratch directory and the programs built from the tree.
type c32Env struct {
	bin string
	tpl string // a directory holding a database with the users "root" (admin) and "bob"
}

type c32Buf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (b *c32Buf) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.Write(p)
}

func (b *c32Buf) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.String()
}

// tool runs one of the command-line programs.
func (e *c32Env) tool(dir, stdin, name string, args ...string) (out string, code int) {
	ctx, cancel := context.WithTimeout(context.Background(), c32Timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(e.bin, name), args...)
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(stdin)
	b, err := cmd.CombinedOutput()
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			return string(b), ee.ExitCode()
		}
		return string(b) + err.Error(), -1
	}
	return string(b), 0
}

// c32Proc is one running bouncer.
type c32Proc struct {
	env  *c32Env
	dir  string
	cmd  *exec.Cmd
	out  c32Buf
	done chan struct{}
	code int
}

func (e *c32Env) dir() string {
	dir, err := os.MkdirTemp("", "c32-")
	if err != nil {
		panic(err)
	}
	return dir
}

// spawn starts the bouncer with a configuration file in a directory of its
// own. %D stands for the directory.
func (e *c32Env) spawn(dir, config string, args ...string) *c32Proc {
	p := &c32Proc{env: e, dir: dir, done: make(chan struct{})}
	p.write(config)
	p.cmd = exec.Command(filepath.Join(e.bin, "soju"), append([]string{"-config", filepath.Join(dir, "config")}, args...)...)
	p.cmd.Dir = dir
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.out
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	go func() {
		p.cmd.Wait()
		p.code = p.cmd.ProcessState.ExitCode()
		close(p.done)
	}()
	return p
}

func (p *c32Proc) write(config string) {
	name := filepath.Join(p.dir, "config")
	if err := os.WriteFile(name, []byte(strings.ReplaceAll(config, "%D", p.dir)), 0600); err != nil {
		panic(err)
	}
}

func (p *c32Proc) exited() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func (p *c32Proc) close() {
	p.cmd.Process.Kill()
	<-p.done
	os.RemoveAll(p.dir)
}

// until waits for something to be true.
func (p *c32Proc) until(f func() bool) bool {
	end := time.Now().Add(c32Timeout)
	for {
		if f() {
			return true
		}
		if time.Now().After(end) || p.exited() {
			return f()
		}
		time.Sleep(20 * time.Millisecond)
	}
}

// c32IRC registers on a connection and returns what it was sent until the end
// of the MOTD or until it was turned down.
func c32IRC(conn net.Conn, user, pass string) ([]string, bool) {
	conn.SetDeadline(time.Now().Add(c32Timeout))
	fmt.Fprintf(conn, "CAP LS 302\r\nPASS %s\r\nUSER %s 0 * :r\r\nNICK %s\r\nCAP END\r\n", pass, user, user)
	var lines []string
	r := bufio.NewReader(conn)
	for {
		l, err := r.ReadString('\n')
		if err != nil {
			return append(lines, err.Error()), false
		}
		l = strings.TrimRight(l, "\r\n")
		lines = append(lines, l)
		f := strings.Fields(l)
		if len(f) > 1 && (f[1] == "376" || f[1] == "422") {
			return lines, true
		}
	}
}

// login registers over a Unix socket.
func (p *c32Proc) login(sock, user, pass string) ([]string, net.Conn) {
	conn, err := net.Dial("unix", filepath.Join(p.dir, sock))
	if err != nil {
		return []string{err.Error()}, nil
	}
	lines, ok := c32IRC(conn, user, pass)
	if !ok {
		conn.Close()
		return lines, nil
	}
	return lines, conn
}

// ready waits until the bouncer serves its users.
func (p *c32Proc) ready(sock string) bool {
	return p.until(func() bool {
		_, conn := p.login(sock, "root", "rootpw")
		if conn != nil {
			conn.Close()
		}
		return conn != nil
	})
}

func (e *c32Env) fresh() string {
	dir := e.dir()
	files, err := filepath.Glob(filepath.Join(e.tpl, "soju.db*"))
	if err != nil || len(files) == 0 {
		panic("no database")
	}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(filepath.Join(dir, filepath.Base(f)), b, 0600); err != nil {
			panic(err)
		}
	}
	return dir
}

// c32Cert writes a self-signed certificate with a serial number.
func c32Cert(dir string, serial int64) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	tmpl := &x509.Certificate{
		SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: "soju"},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), DNSNames: []string{"localhost"},
	}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	kb, err := x509.MarshalECPrivateKey(key)
	if err != nil {
		panic(err)
	}
	os.WriteFile(filepath.Join(dir, "cert.pem"), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0600)
	os.WriteFile(filepath.Join(dir, "key.pem"), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0600)
}

func c32Port() int {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer ln.Close()
	return ln.Addr().(*net.TCPAddr).Port
}

func c32Dial(network, addr string, useTLS bool) (net.Conn, error) {
	conn, err := net.DialTimeout(network, addr, 5*time.Second)
	if err != nil || !useTLS {
		return conn, err
	}
	conn.SetDeadline(time.Now().Add(c32Timeout))
	tc := tls.Client(conn, &tls.Config{InsecureSkipVerify: true})
	if err := tc.Handshake(); err != nil {
		conn.Close()
		return nil, err
	}
	return tc, nil
}

// c32HTTP sends a request and returns the status code.
func c32HTTP(conn net.Conn, method, path string, header ...string) int {
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(c32Timeout))
	fmt.Fprintf(conn, "%s %s HTTP/1.1\r\nHost: irc.example.org\r\n", method, path)
	for _, h := range header {
		fmt.Fprintf(conn, "%s\r\n", h)
	}
	fmt.Fprintf(conn, "\r\n")
	resp, err := http.ReadResponse(bufio.NewReader(conn), nil)
	if err != nil {
		return -1
	}
	return resp.StatusCode
}

// c32Get fetches a page, with its header.
func c32Get(conn net.Conn, path string) string {
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(c32Timeout))
	fmt.Fprintf(conn, "GET %s HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n\r\n", path)
	b, _ := io.ReadAll(io.LimitReader(conn, 1<<20))
	return string(b)
}

var c32Upgrade = []string{"Connection: Upgrade", "Upgrade: websocket", "Sec-WebSocket-Version: 13", "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ=="}

// c32What finds out what is served on an address.
func c32What(network, addr string, useTLS bool) string {
	dial := func() net.Conn {
		conn, err := c32Dial(network, addr, useTLS)
		if err != nil {
			return nil
		}
		return conn
	}
	var what []string
	conn := dial()
	if conn == nil {
		return "nothing"
	}
	lines, regular := c32IRC(conn, "root", "rootpw")
	conn.Close()
	if strings.HasPrefix(lines[0], "HTTP/1.1 ") {
		if conn := dial(); conn != nil {
			rest := c32Get(conn, "/metrics")
			if strings.HasPrefix(rest, "HTTP/1.1 200 ") && strings.Contains(rest, "go_goroutines") {
				what = append(what, "metrics")
			}
		}
		for _, path := range []string{"/", "/socket"} {
			if conn := dial(); conn != nil && c32HTTP(conn, "GET", path, c32Upgrade...) == 101 {
				what = append(what, "websocket"+path)
			}
		}
		for _, path := range []string{"/uploads", "/uploads/x"} {
			if conn := dial(); conn != nil {
				if code := c32HTTP(conn, "OPTIONS", path); code == 204 || code == 200 {
					what = append(what, "uploads")
					break
				}
			}
		}
		if conn := dial(); conn != nil {
			if body := c32Get(conn, "/debug/pprof/cmdline"); strings.HasPrefix(body, "HTTP/1.1 200 ") && strings.Contains(body, "\x00-config\x00") {
				what = append(what, "pprof")
			}
		}
		return "http " + strings.Join(what, " ")
	}
	if regular {
		if conn := dial(); conn != nil {
			_, ok := c32IRC(conn, "root", "wrong")
			conn.Close()
			if ok {
				return "irc without a password"
			}
		}
		return "irc"
	}
	// the administrative interface asks for no password
	if conn := dial(); conn != nil {
		conn.SetDeadline(time.Now().Add(2 * time.Second))
		fmt.Fprintf(conn, "BOUNCERSERV :user status\r\n")
		l, _ := bufio.NewReader(conn).ReadString('\n')
		conn.Close()
		if strings.Contains(l, "PRIVMSG") || strings.Contains(l, "BOUNCERSERV OK") {
			return "admin"
		}
	}
	if conn := dial(); conn != nil {
		conn.SetDeadline(time.Now().Add(2 * time.Second))
		fmt.Fprintf(conn, "1234, 5678\r\n")
		l, _ := bufio.NewReader(conn).ReadString('\n')
		conn.Close()
		if strings.HasPrefix(l, "1234") && strings.Contains(l, "ERROR") {
			return "ident"
		}
	}
	return "?"
}

// c32Listen is a listening URI and what it serves. The empty string: the
// bouncer must not start.
type c32Listen struct {
	uri     string
	what    string
	network string
	addr    string
	tls     bool
	needTLS bool
	mode    os.FileMode
}

func c32Listeners(withTLS bool) []c32Listen {
	var list []c32Listen
	unix := func(scheme, what string, mode os.FileMode) {
		sock := "s-" + strings.ReplaceAll(scheme, "+", "-")
		list = append(list, c32Listen{uri: scheme + "://%D/" + sock, what: what, network: "unix", addr: "%D/" + sock, mode: mode})
	}
	tcp := func(prefix, host, what string, useTLS bool) {
		port := c32Port()
		if useTLS && !withTLS {
			what = ""
		}
		addr := fmt.Sprintf("%s:%d", host, port)
		list = append(list, c32Listen{uri: fmt.Sprintf("%s%s:%d", prefix, host, port), what: what, network: "tcp", addr: addr, tls: useTLS, needTLS: useTLS})
	}
	ws, mux := "http websocket/ websocket/socket", "http websocket/socket uploads"
	unix("unix", "irc", 0)
	unix("unix+admin", "admin", 0600)
	unix("ws+unix", ws, 0)
	unix("http+unix", mux, 0)
	tcp("irc+insecure://", "127.0.0.1", "irc", false)
	tcp("ws+insecure://", "127.0.0.1", ws, false)
	tcp("http+insecure://", "127.0.0.1", mux, false)
	tcp("ident://", "127.0.0.1", "ident", false)
	for _, prefix := range []string{"ircs://", ""} {
		tcp(prefix, "127.0.0.1", "irc", true)
	}
	tcp("wss://", "127.0.0.1", ws, true)
	tcp("https://", "127.0.0.1", mux, true)
	for _, s := range []struct{ scheme, what string }{
		{"irc", "irc"}, {"ws", ws}, {"http", mux}, {"http+prometheus", "metrics"}, {"http+pprof", "pprof"},
	} {
		tcp(s.scheme+"://", "localhost", s.what, false)
		// plain text is for the local host only
		for _, host := range []string{"127.0.0.1", "0.0.0.0", "localhost.example.org", "[::1]", ""} {
			tcp(s.scheme+"://", host, "", false)
		}
	}
	for _, uri := range []string{"gopher://127.0.0.1:1", "irc+tls://127.0.0.1:1", "http+prometheus://localhost", "http+pprof://localhost", "admin://%D/s", "tcp://127.0.0.1:1"} {
		list = append(list, c32Listen{uri: uri})
	}
	return list
}

func c32Try(c *kit.Ctx, e *c32Env, config string, args []string, ls []c32Listen) {
	c.Step(config)
	p := e.spawn(e.fresh(), config, args...)
	defer p.close()
	refused := false
	for _, l := range ls {
		refused = refused || l.what == ""
	}
	if refused {
		select {
		case <-p.done:
			c.Check(p.code != 0, "the bouncer exits with status 0 although it can't listen as asked:\n%s", config)
		case <-time.After(c32Timeout):
			c.Violatef("the bouncer starts with a listening address it must refuse:\n%s\n%s", config, p.out.String())
		}
		return
	}
	for _, l := range ls {
		addr := strings.ReplaceAll(l.addr, "%D", p.dir)
		var what string
		ok := p.until(func() bool {
			what = c32What(l.network, addr, l.tls)
			switch l.what {
			case "metrics", "pprof":
				return strings.HasPrefix(what, "http") && strings.Contains(what, l.what)
			}
			return what == l.what
		})
		c.Check(ok, "listening on %q serves %q, expected %q\n%s", l.uri, what, l.what, p.out.String())
		if l.what == "metrics" {
			c.Check(!strings.Contains(what, "pprof"), "the metrics listener also serves profiling data")
		}
		if l.mode != 0 {
			fi, err := os.Stat(addr)
			c.Check(err == nil && fi.Mode().Perm() == l.mode, "the socket of %q can be used by others: mode %v", l.uri, fi.Mode())
		}
		if l.network == "tcp" && l.tls {
			plain := c32What(l.network, addr, false)
			c.Check(plain == "?" || plain == "nothing" || plain == "http ", "the TLS listener %q serves %q in plain text", l.uri, plain)
		}
	}
	c.Check(!p.exited(), "the bouncer died\n%s", p.out.String())
}

// c32Set is a setting that can be reloaded, and what one sees of it.
type c32Set struct {
	name string
	text string // configuration lines
	set  func(o map[string]string)
	bad  bool
}

func c32Settings() []c32Set {
	s := func(k, v string) func(o map[string]string) { return func(o map[string]string) { o[k] = v } }
	return []c32Set{
		{"none", "", s("", ""), false},
		{"hostname", "hostname irc2.example.org", func(o map[string]string) {
			o["hostname"] = "irc2.example.org"
			if o["filehost"] != "" {
				o["filehost"] = "https://irc2.example.org/uploads"
			}
		}, false},
		{"title", `title "my bouncer"`, s("title", `my\x20bouncer`), false},
		{"motd", "motd %D/motd", s("motd", "hello|second line"), false},
		{"limit0", "max-user-networks 0", s("limit", "0"), false},
		{"limit2", "max-user-networks 2", s("limit", "2"), false},
		{"upload", "file-upload fs %D/up", func(o map[string]string) {
			o["filehost"], o["upload"] = "https://irc.example.org/uploads", "in up"
		}, false},
		{"upload2", "file-upload fs %D/up2", func(o map[string]string) {
			o["filehost"], o["upload"] = "https://irc.example.org/uploads", "in up2"
		}, false},
		{"ingress", "file-upload fs %D/up\nhttp-ingress https://web.example.org/x", func(o map[string]string) {
			o["filehost"], o["upload"] = "https://web.example.org/x/uploads", "in up"
		}, false},
		{"origin", "http-origin *.example.com", s("origin", "yes"), false},
		{"onauth", "enable-user-on-auth true", s("onauth", "yes"), false},
		{"userip", "upstream-user-ip 127.99.0.0/24", s("source", "127.99.0."), false},
		{"bad-directive", "titel x", nil, true},
		{"bad-value", "title x\nhostname bad.example.org\naccept-proxy-ip nonsense", nil, true},
		{"bad-motd", "title x\nmotd %D/missing", nil, true},
		{"bad-tls", "title x\ntls %D/missing %D/missing", nil, true},
		{"bad-auth", "title x\nauth internal\nauth internal", nil, true},
		{"bad-store", "hostname bad.example.org\nmessage-store redis", nil, true},
	}
}

func c32Default() map[string]string {
	return map[string]string{"hostname": "irc.example.org", "title": "", "motd": "", "limit": "3", "filehost": "", "upload": "no", "origin": "no", "onauth": "no", "source": "127.0.0.1"}
}

func c32Show(o map[string]string) string {
	var l []string
	for _, k := range kit.Keys(o) {
		if k != "" {
			l = append(l, fmt.Sprintf("%s=%q", k, o[k]))
		}
	}
	return strings.Join(l, " ")
}

type c32Sess struct {
	conn net.Conn
	r    *bufio.Reader
}

// do sends a service command and returns its replies.
func (s *c32Sess) do(cmd string) []string {
	s.conn.SetDeadline(time.Now().Add(c32Timeout))
	fmt.Fprintf(s.conn, "PRIVMSG BouncerServ :%s\r\nPING sync\r\n", cmd)
	var out []string
	for {
		l, err := s.r.ReadString('\n')
		if err != nil {
			return append(out, err.Error())
		}
		l = strings.TrimRight(l, "\r\n")
		f := strings.Fields(l)
		if len(f) > 1 && f[1] == "PONG" {
			return out
		}
		if i := strings.Index(l, " PRIVMSG "); i >= 0 {
			if j := strings.Index(l[i:], " :"); j >= 0 {
				out = append(out, l[i+j+2:])
			} else {
				out = append(out, l)
			}
		}
	}
}

// observe finds out which settings are in force.
func (p *c32Proc) observe(up net.Listener) map[string]string {
	o := map[string]string{"limit": "?", "upload": "?", "origin": "?", "onauth": "?", "source": "?"}
	lines, conn := p.login("irc", "root", "rootpw")
	if conn == nil {
		o["hostname"] = "login failed: " + strings.Join(lines, " / ")
		return o
	}
	defer conn.Close()
	var motd []string
	for _, l := range lines {
		f := strings.Fields(l)
		if len(f) < 2 {
			continue
		}
		switch f[1] {
		case "001":
			o["hostname"] = strings.TrimPrefix(f[0], ":")
		case "005":
			for _, tok := range f {
				if strings.HasPrefix(tok, "NETWORK=") {
					o["title"] = strings.TrimPrefix(tok, "NETWORK=")
				}
				if strings.HasPrefix(tok, "soju.im/FILEHOST=") {
					o["filehost"] = strings.TrimPrefix(tok, "soju.im/FILEHOST=")
				}
			}
		case "372":
			if i := strings.Index(l, " :"); i >= 0 {
				motd = append(motd, l[i+2:])
			} else {
				motd = append(motd, f[len(f)-1])
			}
		}
	}
	o["motd"] = strings.Join(motd, "|")
	for _, k := range []string{"title", "filehost"} {
		if _, ok := o[k]; !ok {
			o[k] = ""
		}
	}
	s := &c32Sess{conn, bufio.NewReader(conn)}
	n := 0
	for n < 3 {
		out := strings.Join(s.do(fmt.Sprintf("network create -addr irc+unix://%s/no%d -name n%d", p.dir, n, n)), " / ")
		if !strings.Contains(out, "created network") {
			break
		}
		n++
	}
	o["limit"] = fmt.Sprint(n)
	for i := 0; i < n; i++ {
		s.do(fmt.Sprintf("network delete n%d", i))
	}
	if conn, err := net.Dial("unix", filepath.Join(p.dir, "ws")); err == nil {
		code := c32HTTP(conn, "GET", "/", append([]string{"Origin: https://web.example.com"}, c32Upgrade...)...)
		o["origin"] = "no"
		if code == 101 {
			o["origin"] = "yes"
		}
	}
	if o["limit"] != "0" {
		// the source address of a connection to a server
		s.do(fmt.Sprintf("network create -addr irc+insecure://%s -name src", up.Addr()))
		up.(*net.TCPListener).SetDeadline(time.Now().Add(c32Timeout))
		if c, err := up.Accept(); err == nil {
			host, _, _ := net.SplitHostPort(c.RemoteAddr().String())
			o["source"] = host
			if strings.HasPrefix(host, "127.99.0.") {
				o["source"] = "127.99.0."
			}
			c.Close()
		}
		s.do("network delete src")
		// forget connections made meanwhile
		for {
			up.(*net.TCPListener).SetDeadline(time.Now().Add(10 * time.Millisecond))
			c, err := up.Accept()
			if err != nil {
				break
			}
			c.Close()
		}
	}
	if conn, err := net.Dial("unix", filepath.Join(p.dir, "http")); err == nil {
		o["upload"] = "no"
		for _, d := range []string{"up", "up2"} {
			os.RemoveAll(filepath.Join(p.dir, d))
		}
		body := "some text"
		auth := base64.StdEncoding.EncodeToString([]byte("root:rootpw"))
		conn.SetDeadline(time.Now().Add(c32Timeout))
		fmt.Fprintf(conn, "POST /uploads HTTP/1.1\r\nHost: irc.example.org\r\nConnection: close\r\nAuthorization: Basic %s\r\nContent-Type: text/plain\r\nContent-Length: %d\r\n\r\n%s", auth, len(body), body)
		resp, _ := io.ReadAll(conn)
		conn.Close()
		if strings.HasPrefix(string(resp), "HTTP/1.1 201 ") {
			o["upload"] = "in"
			for _, d := range []string{"up", "up2"} {
				if _, err := os.Stat(filepath.Join(p.dir, d)); err == nil {
					o["upload"] += " " + d
				}
			}
		}
	}
	s.do("user update bob -enabled false")
	o["onauth"] = "no"
	if _, conn := p.login("irc", "bob", "bobpw"); conn != nil {
		o["onauth"] = "yes"
		conn.Close()
	}
	return o
}

func TestC32(t *testing.T) {
	run := kit.Start(t, "C32")
	e := &c32Env{bin: os.Getenv("VERIF_BIN")}
	if e.bin == "" {
		t.Fatal("VERIF_BIN is not set")
	}
	e.tpl = e.dir()
	defer os.RemoveAll(e.tpl)
	for _, f := range []string{"hostname irc.example.org\n"} {
		os.WriteFile(filepath.Join(e.tpl, "config"), []byte(f), 0600)
	}
	for _, a := range [][]string{{"root", "-admin"}, {"bob"}} {
		out, code := e.tool(e.tpl, a[0]+"pw\n", "sojudb", append([]string{"-config", "config", "create-user"}, a...)...)
		if code != 0 {
			run.Plain("setup", func(c *kit.Ctx) { c.Violatef("sojudb create-user %v fails (%d): %s", a, code, out) })
			return
		}
	}

	// Listening addresses
	base := "hostname irc.example.org\nfile-upload fs %D/up\n"
	if addrs, err := net.LookupHost("localhost"); err != nil || len(addrs) == 0 {
		t.Fatal("localhost doesn't resolve")
	}
	for _, withTLS := range []bool{false, true} {
		ls := c32Listeners(withTLS)
		for i := range ls {
			l := ls[i]
			name := l.uri
			if l.network == "tcp" {
				name = strings.TrimSuffix(name, l.addr[strings.LastIndex(l.addr, ":"):])
			}
			for _, how := range []string{"alone", "first", "last", "flag"} {
				if how != "alone" && (withTLS && !l.needTLS) {
					continue
				}
				run.Plain(fmt.Sprintf("listen/tls=%v/%s/%d %s", withTLS, how, i, name), func(c *kit.Ctx) {
					l := c32Listeners(withTLS)[i] // with a port of its own
					other := c32Listeners(withTLS)[0]
					conf := base
					if withTLS {
						conf += "tls %D/cert.pem %D/key.pem\n"
					}
					want := []c32Listen{l}
					var args []string
					switch how {
					case "alone":
						conf += "listen " + l.uri + "\n"
					case "first":
						other.uri, other.addr = "unix://%D/other", "%D/other"
						want = append(want, other)
						conf += "listen " + l.uri + "\nlisten " + other.uri + "\n"
					case "last":
						other.uri, other.addr = "unix://%D/other", "%D/other"
						want = append(want, other)
						conf += "listen " + other.uri + "\nlisten " + l.uri + "\n"
					case "flag":
						if strings.Contains(l.uri, "%D") {
							return
						}
						other.uri, other.addr = "unix://%D/other", "%D/other"
						want = append(want, other)
						conf += "listen " + other.uri + "\n"
						args = []string{"-listen", l.uri}
					}
					c32Listen1(c, e, conf, args, want, withTLS)
				})
			}
		}
	}

	// Default ports
	for _, d := range []struct{ scheme, port, what string }{
		{"irc+insecure://", "6667", "irc"}, {"ws+insecure://", "80", "http websocket/ websocket/socket"},
		{"http+insecure://", "80", "http websocket/socket uploads"}, {"ident://", "113", "ident"},
		{"ircs://", "6697", "irc"}, {"", "6697", "irc"}, {"wss://", "443", "http websocket/ websocket/socket"},
		{"https://", "443", "http websocket/socket uploads"},
	} {
		run.Plain("port/"+d.scheme, func(c *kit.Ctx) {
			// an address of its own
			host := fmt.Sprintf("127.31.%d.%d", os.Getpid()>>8&255, os.Getpid()&255)
			addr := host + ":" + d.port
			ln, err := net.Listen("tcp", addr)
			if err != nil {
				c.Step("no permission to listen on " + d.port)
				return
			}
			ln.Close()
			useTLS := !strings.Contains(d.scheme, "insecure") && d.scheme != "ident://"
			c32Listen1(c, e, base+"tls %D/cert.pem %D/key.pem\nlisten "+d.scheme+host+"\n", nil,
				[]c32Listen{{uri: d.scheme + host, what: d.what, network: "tcp", addr: addr, tls: useTLS}}, true)
		})
	}

	// Settings, at the start and after a reload
	sets := c32Settings()
	conf := func(s c32Set) string {
		text := "listen unix://%D/irc\nlisten ws+unix://%D/ws\nlisten http+unix://%D/http\n" + s.text + "\n"
		if !strings.Contains(s.text, "hostname ") {
			text = "hostname irc.example.org\n" + text
		}
		return text
	}
	for _, a := range sets {
		for _, b := range sets {
			if a.bad {
				continue
			}
			run.Plain("reload/"+a.name+"/"+b.name, func(c *kit.Ctx) {
				b := b
				up, err := net.Listen("tcp", "127.0.0.1:0")
				if err != nil {
					panic(err)
				}
				defer up.Close()
				dir := e.fresh()
				os.WriteFile(filepath.Join(dir, "motd"), []byte("hello\nsecond line\n"), 0600)
				p := e.spawn(dir, conf(a))
				defer p.close()
				if !p.ready("irc") {
					c.Violatef("the bouncer doesn't come up with\n%s\n%s", conf(a), p.out.String())
					return
				}
				want := c32Default()
				a.set(want)
				expect := func(what string) {
					w := map[string]string{}
					for k, v := range want {
						w[k] = v
					}
					if w["limit"] == "0" {
						w["source"] = "?"
					}
					var got map[string]string
					ok := p.until(func() bool {
						got = p.observe(up)
						return c32Show(got) == c32Show(w)
					})
					c.Step(fmt.Sprintf("%s: %s", what, c32Show(got)))
					c.Check(ok, "%s the bouncer behaves as %s, expected %s", what, c32Show(got), c32Show(w))
				}
				expect("started with " + a.name)
				p.write(conf(b))
				p.cmd.Process.Signal(syscall.SIGHUP)
				if b.bad {
					time.Sleep(150 * time.Millisecond)
					c.Check(!p.exited(), "the bouncer dies when it reloads the invalid configuration %s", b.name)
					expect("after an invalid configuration, " + b.name + ",")
					// it still reloads valid ones
					b = sets[2]
					p.write(conf(b))
					p.cmd.Process.Signal(syscall.SIGHUP)
				}
				want = c32Default()
				b.set(want)
				expect("after reloading " + b.name)
			})
			if a.name == "none" && b.bad {
				run.Plain("start/"+b.name, func(c *kit.Ctx) {
					p := e.spawn(e.fresh(), conf(b))
					defer p.close()
					select {
					case <-p.done:
						c.Check(p.code != 0, "the bouncer exits with status 0 with the invalid configuration %s", b.name)
					case <-time.After(c32Timeout):
						c.Violatef("the bouncer starts with the invalid configuration %s\n%s", b.name, p.out.String())
					}
				})
			}
		}
	}

	// The TLS certificate is reloaded
	for _, n := range []int{1, 2, 3} {
		run.Plain(fmt.Sprintf("cert/%d", n), func(c *kit.Ctx) {
			dir := e.fresh()
			c32Cert(dir, 100)
			port := c32Port()
			p := e.spawn(dir, fmt.Sprintf("hostname irc.example.org\ntls %%D/cert.pem %%D/key.pem\nlisten unix://%%D/irc\nlisten ircs://127.0.0.1:%d\n", port))
			defer p.close()
			serial := func() string {
				conn, err := c32Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port), true)
				if err != nil {
					return err.Error()
				}
				defer conn.Close()
				return conn.(*tls.Conn).ConnectionState().PeerCertificates[0].SerialNumber.String()
			}
			if !p.ready("irc") {
				c.Violatef("the bouncer doesn't come up: %s", p.out.String())
				return
			}
			c.Check(serial() == "100", "the TLS listener shows certificate %s, expected 100", serial())
			for i := 1; i <= n; i++ {
				c32Cert(dir, int64(100+i))
				p.cmd.Process.Signal(syscall.SIGHUP)
				want := fmt.Sprint(100 + i)
				c.Check(p.until(func() bool { return serial() == want }), "after reload %d the TLS listener shows certificate %s, expected %s", i, serial(), want)
			}
			os.WriteFile(filepath.Join(dir, "key.pem"), []byte("broken"), 0600)
			p.cmd.Process.Signal(syscall.SIGHUP)
			time.Sleep(150 * time.Millisecond)
			c.Check(serial() == fmt.Sprint(100+n), "after a reload with a broken key the TLS listener shows certificate %s", serial())
		})
	}

	// Signals
	for _, sig := range []syscall.Signal{syscall.SIGINT, syscall.SIGTERM} {
		for _, clients := range []int{0, 1, 3} {
			run.Plain(fmt.Sprintf("stop/%v/%d", sig, clients), func(c *kit.Ctx) {
				p := e.spawn(e.fresh(), conf(sets[0]))
				defer p.close()
				if !p.ready("irc") {
					c.Violatef("the bouncer doesn't come up: %s", p.out.String())
					return
				}
				var conns []net.Conn
				for i := 0; i < clients; i++ {
					_, conn := p.login("irc", []string{"root", "bob", "root"}[i], []string{"rootpw", "bobpw", "rootpw"}[i])
					if conn == nil {
						c.Violatef("can't log in")
						return
					}
					defer conn.Close()
					conns = append(conns, conn)
				}
				p.cmd.Process.Signal(sig)
				select {
				case <-p.done:
					c.Check(p.code == 0, "the bouncer exits with status %d on %v\n%s", p.code, sig, p.out.String())
				case <-time.After(c32Timeout):
					c.Violatef("the bouncer doesn't stop on %v\n%s", sig, p.out.String())
				}
				for _, conn := range conns {
					conn.SetDeadline(time.Now().Add(c32Timeout))
					_, err := io.ReadAll(conn)
					c.Check(err == nil, "a client's connection isn't closed: %v", err)
				}
			})
		}
	}
	c32Restart(run, e)
	c32Tools(run, e)
	run.Bound("every documented listening scheme, alone, before and after another and on the command line; every ordered pair of %d settings across a reload; up to 3 certificate reloads; sojudb and sojuctl command sequences", len(sets))
}

// c32Server is an IRC server: it welcomes whoever comes.
type c32Server struct {
	ln   net.Listener
	mu   sync.Mutex
	conn net.Conn
}

func c32NewServer() *c32Server {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &c32Server{ln: ln}
	go func() {
		for {
			conn, err := ln.Accept()
			if err != nil {
				return
			}
			go s.serve(conn)
		}
	}()
	return s
}

func (s *c32Server) serve(conn net.Conn) {
	defer conn.Close()
	r := bufio.NewReader(conn)
	for {
		l, err := r.ReadString('\n')
		if err != nil {
			return
		}
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		switch f[0] {
		case "PING":
			fmt.Fprintf(conn, ":up.example.org PONG up.example.org %s\r\n", f[1])
		case "CAP":
			if f[1] == "LS" {
				fmt.Fprintf(conn, ":up.example.org CAP * LS :\r\n")
			}
		case "USER":
			fmt.Fprintf(conn, ":up.example.org 001 root :Welcome\r\n:up.example.org 004 root up.example.org x i n\r\n:up.example.org 422 root :No MOTD\r\n")
			s.mu.Lock()
			s.conn = conn
			s.mu.Unlock()
		}
	}
}

func (s *c32Server) say(text string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	fmt.Fprintf(s.conn, ":bob!b@h PRIVMSG root :%s\r\n", text)
}

func (s *c32Server) up() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.conn != nil
}

// c32Restart: stopping by a signal loses and repeats nothing, whoever is
// connected.
func c32Restart(run *kit.Run, e *c32Env) {
	stores := map[string]string{"fs": "message-store fs %D/logs", "db": "message-store db"}
	for _, store := range kit.Keys(stores) {
		for mask := 0; mask < 1<<run.Pick(3, 4); mask++ {
			run.Plain(fmt.Sprintf("restart/%s/%b", store, mask), func(c *kit.Ctx) {
				srv := c32NewServer()
				defer srv.ln.Close()
				conf := "hostname irc.example.org\nlisten unix://%D/irc\n" + stores[store] + "\n"
				p := e.spawn(e.fresh(), conf)
				defer func() { p.close() }()
				if !p.ready("irc") {
					c.Violatef("the bouncer doesn't come up: %s", p.out.String())
					return
				}
				_, conn := p.login("irc", "root", "rootpw")
				(&c32Sess{conn, bufio.NewReader(conn)}).do("network create -addr irc+insecure://" + srv.ln.Addr().String() + " -name n -nick root")
				conn.Close()
				var cl *c32Client
				n := 0
				// read collects the messages from bob up to the last one said
				expect := func(what string, texts ...string) {
					got := cl.until(fmt.Sprintf("end%d", n))
					n++
					c.Check(kit.Eq(got, texts), "%s: the client receives %q, expected %q", what, got, texts)
				}
				// the fs store keeps whole seconds
				pause := func() {
					if store == "fs" {
						time.Sleep(1100 * time.Millisecond)
					}
				}
				var missed []string
				for round := 0; round < run.Pick(3, 4); round++ {
					if !p.until(srv.up) {
						c.Violatef("the bouncer doesn't connect to the server: %s", p.out.String())
						return
					}
					here := mask>>round&1 == 1
					c.Step(fmt.Sprintf("round %d: client connected %v", round, here))
					if here || round == 0 {
						// (the first time, so that the bouncer knows the client)
						pause()
						cl = c32Attach(p, "c")
						if cl == nil {
							c.Violatef("the client can't connect: %s", p.out.String())
							return
						}
						srv.say(fmt.Sprintf("end%d", n))
						expect("connecting", missed...)
						missed = nil
					}
					if !here && cl != nil {
						cl.conn.Close()
						cl = nil
					}
					pause()
					// another client tells when the messages have come through
					other := c32Attach(p, "w")
					if other == nil {
						c.Violatef("the other client can't connect: %s", p.out.String())
						return
					}
					for i := 0; i < 2; i++ {
						text := fmt.Sprintf("r%dm%d", round, i)
						srv.say(text)
						if !here {
							missed = append(missed, text)
						}
					}
					if here {
						srv.say(fmt.Sprintf("end%d", n))
						expect("connected", fmt.Sprintf("r%dm0", round), fmt.Sprintf("r%dm1", round))
					}
					other.until(fmt.Sprintf("r%dm1", round))
					if round%2 == 0 {
						other.conn.Close()
					} else {
						defer other.conn.Close()
					}
					srv.mu.Lock()
					srv.conn = nil
					srv.mu.Unlock()
					p.cmd.Process.Signal([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[round%2])
					select {
					case <-p.done:
						c.Check(p.code == 0, "the bouncer exits with status %d\n%s", p.code, p.out.String())
					case <-time.After(c32Timeout):
						c.Violatef("the bouncer doesn't stop\n%s", p.out.String())
						return
					}
					if cl != nil {
						cl.conn.Close()
						cl = nil
					}
					os.Remove(filepath.Join(p.dir, "irc"))
					p = e.spawn(p.dir, conf)
					if !p.ready("irc") {
						c.Violatef("the bouncer doesn't come up again: %s", p.out.String())
						return
					}
				}
				if !p.until(srv.up) {
					c.Violatef("the bouncer doesn't connect to the server: %s", p.out.String())
					return
				}
				pause()
				cl = c32Attach(p, "c")
				if cl == nil {
					c.Violatef("the client can't connect: %s", p.out.String())
					return
				}
				srv.say(fmt.Sprintf("end%d", n))
				expect("at the end", missed...)
				cl.conn.Close()
			})
		}
	}
}

type c32Client struct {
	conn net.Conn
	r    *bufio.Reader
}

func c32Attach(p *c32Proc, name string) *c32Client {
	conn, err := net.Dial("unix", filepath.Join(p.dir, "irc"))
	if err != nil {
		return nil
	}
	fmt.Fprintf(conn, "PASS rootpw\r\nUSER root/n@%s 0 * :r\r\nNICK root\r\n", name)
	cl := &c32Client{conn, bufio.NewReader(conn)}
	conn.SetDeadline(time.Now().Add(c32Timeout))
	for {
		l, err := cl.r.ReadString('\n')
		if err != nil {
			return nil
		}
		f := strings.Fields(l)
		if len(f) > 1 && (f[1] == "376" || f[1] == "422") {
			return cl
		}
	}
}

// until reads messages from bob up to a given one, and acknowledges what it
// got.
func (cl *c32Client) until(end string) []string {
	cl.conn.SetDeadline(time.Now().Add(c32Timeout))
	var texts []string
	for {
		l, err := cl.r.ReadString('\n')
		if err != nil {
			return append(texts, err.Error())
		}
		f := strings.Fields(l)
		if len(f) > 1 && f[0] == "PING" {
			fmt.Fprintf(cl.conn, "PONG %s\r\n", f[1])
		}
		if !strings.HasPrefix(l, ":bob!") && !strings.HasPrefix(l, ":bob ") {
			continue
		}
		text := strings.TrimPrefix(f[len(f)-1], ":")
		if text == end {
			// (the PING acknowledging it comes first)
			fmt.Fprintf(cl.conn, "PING sync1\r\n")
			for {
				l, err := cl.r.ReadString('\n')
				if err != nil {
					return append(texts, err.Error())
				}
				f := strings.Fields(l)
				if len(f) > 1 && f[0] == "PING" {
					fmt.Fprintf(cl.conn, "PONG %s\r\n", f[1])
				}
				if len(f) > 1 && f[1] == "PONG" && strings.HasSuffix(f[len(f)-1], "sync1") {
					fmt.Fprintf(cl.conn, "PING sync2\r\n")
				} else if len(f) > 1 && f[1] == "PONG" {
					// what it acknowledged has arrived before this
					return texts
				}
			}
		}
		texts = append(texts, text)
	}
}

func c32Listen1(c *kit.Ctx, e *c32Env, conf string, args []string, want []c32Listen, withTLS bool) {
	if withTLS {
		dir := e.dir()
		defer os.RemoveAll(dir)
		c32Cert(dir, 7)
		conf = strings.ReplaceAll(strings.ReplaceAll(conf, "%D/cert.pem", dir+"/cert.pem"), "%D/key.pem", dir+"/key.pem")
		c32Try(c, e, conf, args, want)
		return
	}
	c32Try(c, e, conf, args, want)
}

// c32Tools: the command-line programs.
func c32Tools(run *kit.Run, e *c32Env) {
	users := func(dir string) (map[string]bool, error) {
		db, err := database.Open("sqlite3", filepath.Join(dir, "soju.db"))
		if err != nil {
			return nil, err
		}
		defer db.Close()
		l, err := db.ListUsers(context.Background())
		if err != nil {
			return nil, err
		}
		m := map[string]bool{}
		for _, u := range l {
			m[u.Username] = u.Admin
		}
		return m, nil
	}
	check := func(dir, user, pass string) bool {
		db, err := database.Open("sqlite3", filepath.Join(dir, "soju.db"))
		if err != nil {
			return false
		}
		defer db.Close()
		u, err := db.GetUser(context.Background(), user)
		if err != nil {
			return false
		}
		_, err = u.CheckPassword(pass)
		return err == nil
	}
	type op struct {
		args  string
		stdin string
	}
	ops := []op{
		{"create-user carol", "p1\n"}, {"create-user carol -admin", "p2\n"}, {"create-user dave -admin", "p 3"}, {"create-user bob", "p4\n"},
		{"change-password bob", "p5\n"}, {"change-password carol", "p6\nx\n"}, {"change-password nobody", "p7\n"},
		{"create-user carol", ""}, {"create-user carol", "\n"}, {"change-password bob", "\n"}, {"change-password bob", ""},
		{"create-user", "p8\n"}, {"change-password", "p8\n"}, {"frobnicate", ""}, {"", ""}, {"help", ""},
	}
	run.Tree("sojudb", run.Pick(2, 3), func(seq []string) []string {
		var l []string
		for i := range ops {
			l = append(l, fmt.Sprint(i))
		}
		return l
	}, func(key string, seq []string) {
		run.Plain(key, func(c *kit.Ctx) {
			dir := e.fresh()
			defer os.RemoveAll(dir)
			os.WriteFile(filepath.Join(dir, "config"), nil, 0600)
			type acct struct {
				pass  string
				admin bool
			}
			want := map[string]acct{"root": {"rootpw", true}, "bob": {"bobpw", false}}
			for _, s := range seq {
				var i int
				fmt.Sscan(s, &i)
				o := ops[i]
				out, code := e.tool(dir, o.stdin, "sojudb", append([]string{"-config", "config"}, strings.Fields(o.args)...)...)
				c.Step(fmt.Sprintf("sojudb %s <<< %q: %d", o.args, o.stdin, code))
				pass, _, _ := strings.Cut(o.stdin, "\n")
				f := strings.Fields(o.args)
				ok := false
				switch {
				case len(f) == 1 && f[0] == "help":
					ok = true
				case len(f) < 2 || pass == "":
				case f[0] == "create-user":
					if _, exists := want[f[1]]; !exists {
						want[f[1]] = acct{pass, len(f) == 3}
						ok = true
					}
				case f[0] == "change-password":
					if a, exists := want[f[1]]; exists {
						a.pass = pass
						want[f[1]] = a
						ok = true
					}
				}
				c.Check((code == 0) == ok, "sojudb %s with %q exits with status %d: %s", o.args, o.stdin, code, out)
			}
			got, err := users(dir)
			c.Check(err == nil, "the database can't be read: %v", err)
			c.Check(len(got) == len(want), "the users are %v, expected %v", got, want)
			for name, a := range want {
				admin, ok := got[name]
				c.Check(ok && admin == a.admin, "the users are %v, expected %v", got, want)
				c.Check(check(dir, name, a.pass), "the password of %s isn't %q", name, a.pass)
			}
		})
	})

	// sojuctl passes on its arguments, and reports what happened
	values := []string{
		"plain", "two words", ` lead and trail `, `quo"te`, `'single'`, `back\slash`, `trail\`, "tab\there", "bold\x02text\x02", "é ü", "nb\u00a0sp",
		"\U0001F469\u200d\U0001F4BB", "100%s %d%%", ":colon", "#hash", "-dash", "$HOME `x`", "a,b;c=d", "x\x7fy", "\u00ad",
	}
	run.Plain("sojuctl", func(c *kit.Ctx) {
		p := e.spawn(e.fresh(), "hostname irc.example.org\nlisten unix://%D/irc\nlisten unix+admin://%D/admin\n")
		defer p.close()
		if !p.ready("irc") {
			c.Violatef("the bouncer doesn't come up: %s", p.out.String())
			return
		}
		ctl := func(args ...string) (string, int) {
			out, code := e.tool(p.dir, "", "sojuctl", append([]string{"-config", "config"}, args...)...)
			c.Step(fmt.Sprintf("sojuctl %q: %d", args, code))
			return out, code
		}
		read := func(name string) (*database.User, error) {
			db, err := database.Open("sqlite3", filepath.Join(p.dir, "soju.db"))
			if err != nil {
				return nil, err
			}
			defer db.Close()
			return db.GetUser(context.Background(), name)
		}
		nets := func(name string) ([]database.Network, error) {
			db, err := database.Open("sqlite3", filepath.Join(p.dir, "soju.db"))
			if err != nil {
				return nil, err
			}
			defer db.Close()
			u, err := db.GetUser(context.Background(), name)
			if err != nil {
				return nil, err
			}
			return db.ListNetworks(context.Background(), u.ID)
		}
		for i, v := range values {
			name := fmt.Sprintf("u%d", i)
			out, code := ctl("user", "create", "-username", name, "-password", "pw", "-realname", v)
			c.Check(code == 0 && strings.Contains(out, name), "sojuctl user create with the real name %q fails (%d): %s", v, code, out)
			u, err := read(name)
			if err != nil {
				c.Violatef("sojuctl doesn't create the user %s: %v", name, err)
				continue
			}
			c.Check(u.Realname == v, "sojuctl user create -realname %q stores the real name %q", v, u.Realname)
			out, code = ctl("user", "update", "bob", "-admin", fmt.Sprint(i%2 == 0))
			u, err = read("bob")
			c.Check(err == nil && code == 0 && u.Admin == (i%2 == 0), "sojuctl user update -admin %v: %d %s, stored %v", i%2 == 0, code, out, u)
			out, code = ctl("user", "run", name, "network", "create", "-addr", "irc+insecure://127.0.0.1:1", "-name", "n", "-realname", v, "-enabled", "false")
			c.Check(code == 0, "sojuctl user run network create -realname %q: %d %s", v, code, out)
			if nets, err := nets(name); err != nil || len(nets) != 1 || nets[0].Realname != v {
				c.Violatef("sojuctl user run network create -realname %q stores %v (%v)", v, nets, err)
			}
			// what fails is reported as it is
			if strings.Contains(v, " ") || v == "-dash" {
				continue
			}
			out, code = ctl("user", "update", v)
			c.Check(code != 0, "sojuctl succeeds with the unknown user %q: %s", v, out)
			out, code = ctl("user", "update", "no%dbody", "-realname", "x")
			c.Check(code != 0 && !strings.Contains(out, "MISSING") && !strings.Contains(out, "!d"), "sojuctl reports %q", out)
		}
		// an argument can't smuggle in another command
		for _, v := range []string{"x\r\nBOUNCERSERV :user update bob -admin false", "x\nBOUNCERSERV :user update bob -admin false", "x\rBOUNCERSERV :user update bob -admin false"} {
			ctl("user", "update", "bob", "-admin", "true")
			ctl("user", "create", "-username", "eve", "-password", "pw", "-realname", v)
			ctl("user", "status")
			u, err := read("bob")
			c.Check(err == nil && u.Admin, "an argument of sojuctl runs another command: %q", v)
		}
		out, code := ctl("user", "run", "bob", "network", "status")
		c.Check(code == 0, "sojuctl user run: %d %s", code, out)
		out, code = ctl("server", "status")
		c.Check(code == 0 && strings.Contains(out, "users"), "sojuctl server status: %d %s", code, out)
		out, code = ctl("frobnicate")
		c.Check(code != 0, "sojuctl frobnicate succeeds: %s", out)
		out, code = ctl("help")
		c.Check(code == 0 && strings.Contains(out, "user"), "sojuctl help: %d %s", code, out)
		out, code = ctl()
		c.Check(code != 0 || out != "", "sojuctl without a command: %d %q", code, out)
		// without the administrative listener in the configuration, or
		// without the bouncer, it fails
		p.write("listen unix://%D/irc\n")
		_, code = ctl("server", "status")
		c.Check(code != 0, "sojuctl succeeds without an administrative listener")
		p.write("listen unix+admin://%D/elsewhere\n")
		_, code = ctl("server", "status")
		c.Check(code != 0, "sojuctl succeeds without the bouncer")
	})
}
