package props

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"sojuverif/kit"
)

// C33: connections to servers are authenticated as configured.

type c33Cert struct {
	der []byte
	x   *x509.Certificate
	key crypto.Signer
}

func (c *c33Cert) pin(algo string) string {
	if algo == "sha256" {
		s := sha256.Sum256(c.der)
		return hex.EncodeToString(s[:])
	}
	s := sha512.Sum512(c.der)
	return hex.EncodeToString(s[:])
}

var c33Serial int64

func c33Make(parent *c33Cert, f func(*x509.Certificate)) *c33Cert {
	c33Serial++
	t := &x509.Certificate{
		SerialNumber: big.NewInt(c33Serial),
		Subject:      pkix.Name{CommonName: fmt.Sprintf("cert%d", c33Serial)},
		NotBefore:    time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC),
		NotAfter:     time.Date(2040, 1, 1, 0, 0, 0, 0, time.UTC),
		KeyUsage:     x509.KeyUsageDigitalSignature,
		ExtKeyUsage:  []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		DNSNames:     []string{"name.test"},
	}
	if f != nil {
		f(t)
	}
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	p, pk := t, crypto.Signer(key)
	if parent != nil {
		p, pk = parent.x, parent.key
	}
	der, err := x509.CreateCertificate(rand.Reader, t, p, key.Public(), pk)
	if err != nil {
		panic(err)
	}
	x, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return &c33Cert{der, x, key}
}

func c33CA(t *x509.Certificate) {
	t.IsCA, t.BasicConstraintsValid = true, true
	t.KeyUsage = x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature
	t.ExtKeyUsage, t.DNSNames = nil, nil
}

type c33Chain struct {
	name    string
	certs   []*c33Cert
	trusted bool      // by the certificate authorities, for name.test
	until   time.Time // if not zero, the end of the trust
}

type c33PKI struct {
	chains []*c33Chain
	by     map[string]*c33Chain
	certs  map[string]*c33Cert
	names  []string // of certs
}

func c33NewPKI(dir string) *c33PKI {
	p := &c33PKI{by: map[string]*c33Chain{}, certs: map[string]*c33Cert{}}
	cert := func(name string, c *c33Cert) *c33Cert {
		p.certs[name] = c
		p.names = append(p.names, name)
		return c
	}
	ca := cert("ca", c33Make(nil, c33CA))
	inter := cert("inter", c33Make(ca, c33CA))
	rogue := c33Make(nil, c33CA)
	leaf := cert("leaf", c33Make(ca, nil))
	leafI := cert("leafI", c33Make(inter, nil))
	self1 := cert("self1", c33Make(nil, nil))
	self2 := cert("self2", c33Make(nil, nil))
	leafR := cert("leafR", c33Make(rogue, nil))
	old := cert("old", c33Make(ca, func(t *x509.Certificate) { t.NotAfter = time.Date(1999, 12, 31, 0, 0, 0, 0, time.UTC) }))
	host := cert("host", c33Make(ca, func(t *x509.Certificate) { t.DNSNames = []string{"other.test"} }))
	soon := c33Make(ca, func(t *x509.Certificate) { t.NotAfter = time.Date(2000, 1, 1, 2, 0, 0, 0, time.UTC) })
	add := func(name string, trusted bool, certs ...*c33Cert) {
		ch := &c33Chain{name: name, certs: certs, trusted: trusted}
		if certs[0] == soon {
			ch.until = soon.x.NotAfter
		}
		p.chains = append(p.chains, ch)
		p.by[name] = ch
	}
	add("good", true, leaf)
	add("goodI", true, leafI, inter)
	add("goodroot", true, leafI, inter, ca)
	add("nointer", false, leafI)
	add("wild", true, c33Make(ca, func(t *x509.Certificate) { t.DNSNames = []string{"*.test"} }))
	add("host", false, host)
	add("sub", false, c33Make(ca, func(t *x509.Certificate) { t.DNSNames = []string{"irc.name.test", "*.name.test"} }))
	add("cn", false, c33Make(ca, func(t *x509.Certificate) { t.Subject.CommonName = "name.test"; t.DNSNames = nil }))
	add("old", false, old)
	add("future", false, c33Make(ca, func(t *x509.Certificate) { t.NotBefore = time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC) }))
	add("soon", true, soon)
	add("self1", false, self1)
	add("self2", false, self2)
	add("rogue", false, leafR, rogue)
	add("client", false, c33Make(ca, func(t *x509.Certificate) { t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth} }))
	add("leafsigned", false, c33Make(leaf, nil), leaf) // issued by something which is not an authority
	// more certificates than needed
	add("self2+self1", false, self2, self1)
	add("self2+good", false, self2, leaf)
	add("self2+good+self1", false, self2, leaf, self1)
	add("good+self2", true, leaf, self2)
	add("rogue+good", false, leafR, leaf)
	add("host+good", false, host, leaf)

	b := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: ca.der})
	file := filepath.Join(dir, "ca.pem")
	if err := os.WriteFile(file, b, 0o600); err != nil {
		panic(err)
	}
	os.Setenv("SSL_CERT_FILE", file)
	os.Setenv("SSL_CERT_DIR", dir+"/none")
	return p
}

// c33Conn is what a server saw on one connection.
type c33Conn struct {
	mu    sync.Mutex
	done  bool // the handshake has ended
	err   error
	state tls.ConnectionState
	data  int // bytes received from the bouncer over TLS
	chain *c33Chain
	plain string // beginning of what was received below TLS
}

// c33Half is one end of a buffered connection (net.Pipe lets two writers wait
// for each other).
type c33Half struct {
	net.Conn // the in-memory connection, for its addresses
	mu       *sync.Mutex
	cond     *sync.Cond
	in       []byte
	closed   *bool // by either side
	peer     *c33Half
	dl       time.Time
}

func c33Pipe(inner net.Conn) (a, b *c33Half) {
	mu, closed := new(sync.Mutex), new(bool)
	cond := sync.NewCond(mu)
	a = &c33Half{Conn: inner, mu: mu, cond: cond, closed: closed}
	b = &c33Half{Conn: inner, mu: mu, cond: cond, closed: closed, peer: a}
	a.peer = b
	return a, b
}

func (h *c33Half) Read(b []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for len(h.in) == 0 {
		if *h.closed {
			return 0, io.EOF
		}
		if !h.dl.IsZero() && !time.Now().Before(h.dl) {
			return 0, os.ErrDeadlineExceeded
		}
		h.cond.Wait()
	}
	n := copy(b, h.in)
	h.in = h.in[n:]
	return n, nil
}

func (h *c33Half) Write(b []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if *h.closed {
		return 0, net.ErrClosed
	}
	h.peer.in = append(h.peer.in, b...)
	h.cond.Broadcast()
	return len(b), nil
}

func (h *c33Half) Close() error {
	h.mu.Lock()
	defer h.mu.Unlock()
	*h.closed = true
	h.cond.Broadcast()
	return nil
}

func (h *c33Half) SetReadDeadline(t time.Time) error {
	h.mu.Lock()
	h.dl = t
	h.mu.Unlock()
	h.cond.Broadcast()
	if !t.IsZero() {
		time.AfterFunc(time.Until(t), h.cond.Broadcast)
	}
	return nil
}
func (h *c33Half) SetWriteDeadline(t time.Time) error { return nil }
func (h *c33Half) SetDeadline(t time.Time) error      { return h.SetReadDeadline(t) }

type c33Count struct {
	io.Writer
	c *c33Conn
}

func (w c33Count) Write(b []byte) (int, error) {
	w.c.mu.Lock()
	w.c.data += len(b)
	w.c.mu.Unlock()
	return w.Writer.Write(b)
}

// c33Tap records the beginning of what is read below TLS.
type c33Tap struct {
	net.Conn
	c *c33Conn
}

func (t c33Tap) Read(b []byte) (int, error) {
	n, err := t.Conn.Read(b)
	t.c.mu.Lock()
	if len(t.c.plain) < 3 {
		t.c.plain += string(b[:n])
	}
	t.c.mu.Unlock()
	return n, err
}

type c33Server struct {
	up     *kit.UpServer
	chain  *c33Chain
	max    uint16
	noReq  bool // client certificates are not requested
	conns  []*c33Conn
	sasl   []string // what was received by AUTHENTICATE
	refuse bool
}

func c33Listen(w *kit.World, addr string, chain *c33Chain) *c33Server {
	s := &c33Server{up: w.Server(addr), chain: chain}
	s.up.Caps = []string{"sasl=PLAIN,EXTERNAL"}
	s.up.Wrap = func(inner net.Conn) net.Conn {
		a, b := c33Pipe(inner)
		rec := &c33Conn{chain: s.chain}
		s.conns = append(s.conns, rec)
		cfg := &tls.Config{NextProtos: []string{"irc"}, ClientAuth: tls.RequestClientCert, MaxVersion: s.max}
		if s.noReq {
			cfg.ClientAuth = tls.NoClientCert
		}
		var raw [][]byte
		for _, c := range s.chain.certs {
			raw = append(raw, c.der)
		}
		cfg.Certificates = []tls.Certificate{{Certificate: raw, PrivateKey: s.chain.certs[0].key}}
		go func() {
			ts := tls.Server(c33Tap{b, rec}, cfg)
			err := ts.Handshake()
			rec.mu.Lock()
			rec.done, rec.err, rec.state = true, err, ts.ConnectionState()
			rec.mu.Unlock()
			if err != nil {
				b.Close()
				inner.Close()
				return
			}
			go func() {
				io.Copy(ts, inner) // what the server says
				ts.Close()
			}()
			io.Copy(c33Count{inner, rec}, ts)
			ts.Close()
			inner.Close()
		}()
		return a
	}
	s.up.Hook = func(uc *kit.UpConn, m *ircMessage) bool {
		if m.Command != "AUTHENTICATE" {
			return false
		}
		p := strings.Join(m.Params, " ")
		s.sasl = append(s.sasl, p)
		if p == "PLAIN" || p == "EXTERNAL" {
			uc.Send("AUTHENTICATE +")
		} else {
			uc.Send(":name.test 900 u u!u@h u :You are now logged in")
			uc.Send(":name.test 903 u :SASL authentication successful")
		}
		return true
	}
	return s
}

type c33Env struct {
	c    *kit.Ctx
	w    *kit.World
	cl   *kit.Client
	pki  *c33PKI
	s    *c33Server
	host string // name of the network

	pin  string // canonical fingerprint, or empty
	sasl string // "", plain, external
	fp   string // SHA-512 fingerprint of the client certificate announced by the service
}

func (e *c33Env) service(cmd string) []string {
	e.cl.Take()
	return kit.Service(e.cl.Do("PRIVMSG BouncerServ :" + cmd))
}

func (e *c33Env) allowed() bool {
	if e.pin != "" {
		leaf := e.s.chain.certs[0]
		return e.pin == leaf.pin("sha256") || e.pin == leaf.pin("sha512")
	}
	ch := e.s.chain
	return ch.trusted && (ch.until.IsZero() || time.Now().Before(ch.until))
}

// fresh makes the bouncer connect again and returns what the server saw.
func (e *c33Env) fresh() *c33Conn {
	n := len(e.s.conns)
	e.s.sasl = nil
	e.s.up.Drop()
	for i := 0; i < 150 && len(e.s.conns) == n; i++ {
		e.w.Sleep(5 * time.Second)
	}
	for i := 0; i < 4; i++ {
		e.w.Sleep(5 * time.Second)
	}
	if len(e.s.conns) == n {
		e.c.Violatef("the bouncer does not connect again to the server")
		return nil
	}
	return e.s.conns[len(e.s.conns)-1]
}

func (e *c33Env) judge(rec *c33Conn) {
	if rec == nil || e.c.Bad() {
		return
	}
	rec.mu.Lock()
	defer rec.mu.Unlock()
	e.c.Check(true, "")
	c := e.c
	what := fmt.Sprintf("the server presenting %s (pinned: %s)", rec.chain.name, e.pinName())
	if len(rec.plain) > 0 && rec.plain[0] != 22 {
		c.Violatef("the bouncer talks in clear text to %s", what)
		return
	}
	ok := e.allowed()
	live := e.s.up.Live() != nil
	st := e.service("network status")
	if !ok {
		if rec.err == nil || rec.data > 0 || live {
			c.Violatef("the bouncer accepts %s: handshake error %v, %d bytes sent to it", what, rec.err, rec.data)
			return
		}
		if len(st) == 0 || !strings.Contains(st[0], "disconnected") {
			c.Violatef("with %s the network status is %q", what, st)
			return
		}
		if e.pin != "" {
			if want := rec.chain.certs[0].pin("sha512"); !strings.Contains(strings.Join(st, " "), want) {
				c.Violatef("the refusal of %s does not tell the fingerprint %s of its certificate: %q", what, want, st)
			}
		}
		return
	}
	if rec.err != nil || !live {
		c.Violatef("the bouncer refuses %s: %v; status %q", what, rec.err, st)
		return
	}
	if rec.state.ServerName != "name.test" {
		c.Violatef("the bouncer asks for the server name %q", rec.state.ServerName)
	}
	if rec.state.NegotiatedProtocol != "irc" {
		c.Violatef("the bouncer negotiates the protocol %q", rec.state.NegotiatedProtocol)
	}
	// the client's side
	got := ""
	if pc := rec.state.PeerCertificates; len(pc) > 0 {
		s := sha512.Sum512(pc[0].Raw)
		got = hex.EncodeToString(s[:])
	}
	want := ""
	if e.sasl == "external" && !e.s.noReq {
		want = e.fp
	}
	if got != want {
		c.Violatef("the bouncer presents the client certificate %.16q, expected %.16q (authentication %q)", got, want, e.sasl)
		return
	}
	var auth []string
	switch e.sasl {
	case "plain":
		auth = []string{"PLAIN", base64.StdEncoding.EncodeToString([]byte("\x00acc\x00secret"))}
	case "external":
		auth = []string{"EXTERNAL", "+"}
	}
	if !kit.Eq(e.s.sasl, auth) {
		c.Violatef("the bouncer authenticates with %q, expected %q", e.s.sasl, auth)
	}
}

func (e *c33Env) pinName() string {
	if e.pin == "" {
		return "nothing"
	}
	for _, n := range e.pki.names {
		for _, a := range []string{"sha256", "sha512"} {
			if e.pki.certs[n].pin(a) == e.pin {
				return a + " of " + n
			}
		}
	}
	return e.pin
}

func (e *c33Env) setSASL(kind string) {
	switch kind {
	case "":
		if r := e.service("sasl reset"); !e.c.Check(len(r) > 0, "no answer to sasl reset") {
			return
		}
		e.sasl, e.fp = "", ""
	case "plain":
		e.service("sasl set-plain acc secret")
		e.sasl, e.fp = "plain", ""
	default: // key type
		r := e.service("certfp generate " + kind)
		fp := ""
		for _, l := range r {
			if strings.HasPrefix(l, "SHA-512 fingerprint: ") {
				fp = strings.TrimPrefix(l, "SHA-512 fingerprint: ")
			}
		}
		if fp == "" {
			e.c.Violatef("certfp generate %s: %q", kind, r)
			return
		}
		if fp == e.fp {
			e.c.Violatef("certfp generate gives the same certificate again")
		}
		e.sasl, e.fp = "external", fp
		if r2 := e.service("certfp fingerprint"); !kit.Eq(r2, r[1:]) {
			e.c.Violatef("certfp fingerprint answers %q after generation answered %q", r2, r)
		}
	}
}

func c33Spell(pin, how string) string {
	switch how {
	case "upper":
		return strings.ToUpper(pin)
	case "colons":
		var l []string
		for i := 0; i < len(pin); i += 2 {
			l = append(l, strings.ToUpper(pin[i:i+2]))
		}
		return strings.Join(l, ":")
	}
	return pin
}

func TestC33(t *testing.T) {
	dir, err := os.MkdirTemp("", "soju-verif-c33")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	pki := c33NewPKI(dir)
	if _, err := x509.SystemCertPool(); err != nil { // loads the authorities
		t.Fatal(err)
	}
	r := kit.Start(t, "C33")

	world := func(key string, addr, listen string, chain *c33Chain, pin, spell string, f func(e *c33Env)) {
		r.World(key, func(c *kit.Ctx, w *kit.World) {
			u := w.AddUser("u", nil)
			_ = u
			w.Start()
			s := c33Listen(w, listen, chain)
			e := &c33Env{c: c, w: w, pki: pki, s: s, host: "name", pin: pin}
			e.cl = w.Connect("a", kit.ConnOpts{User: "u"})
			cmd := "network create -name name -nick u -addr " + addr
			if pin != "" {
				cmd += " -certfp " + c33Spell(pin, spell)
			}
			e.cl.Do("PRIVMSG BouncerServ :" + cmd)
			e.cl.Quit()
			w.Settle()
			e.cl = w.Connect("b", kit.ConnOpts{User: "u", Network: "name"})
			f(e)
		})
	}

	// every kind of server, pinned certificate and way to authenticate
	type pinT struct{ name, pin string }
	pins := []pinT{{"none", ""}}
	for _, n := range pki.names {
		for _, a := range []string{"sha256", "sha512"} {
			pins = append(pins, pinT{a + "-" + n, pki.certs[n].pin(a)})
		}
	}
	kinds := []string{"", "plain", "-key-type ecdsa", "-key-type ed25519"}
	for _, ch := range pki.chains {
		for _, pn := range pins {
			for _, k := range kinds {
				for _, v := range []uint16{tls.VersionTLS12, tls.VersionTLS13} {
					if !r.Thorough() && v == tls.VersionTLS12 && k != "" {
						continue
					}
					ch, pn, k, v := ch, pn, k, v
					world(fmt.Sprintf("server/%s/%s/%s/%x", ch.name, pn.name, strings.TrimPrefix(k, "-key-type "), v), "ircs://name.test", "name.test:6697", ch, pn.pin, "", func(e *c33Env) {
						e.s.max = v
						if k != "" {
							e.setSASL(k)
						}
						e.judge(e.fresh())
					})
				}
			}
		}
	}
	r.Bound("server: %d certificate chains x %d pinned fingerprints x %d ways to authenticate, TLS 1.2 and 1.3", len(pki.chains), len(pins), len(kinds))

	// spellings of addresses and fingerprints
	for _, a := range [][2]string{{"name.test", "name.test:6697"}, {"ircs://name.test", "name.test:6697"}, {"ircs://name.test:6697", "name.test:6697"}, {"ircs://name.test:7000", "name.test:7000"}, {"name.test:6667", "name.test:6667"}} {
		for _, ch := range []string{"good", "host", "self1", "self2+self1"} {
			for _, cert := range []string{"", "self1", "leaf"} {
				for _, algo := range []string{"sha256", "sha512"} {
					for _, sp := range []string{"", "upper", "colons"} {
						if cert == "" && (algo != "sha256" || sp != "") {
							continue
						}
						a, ch, algo, sp, pin := a, ch, algo, sp, ""
						if cert != "" {
							pin = pki.certs[cert].pin(algo)
						}
						world(fmt.Sprintf("spelling/%s/%s/%s/%s/%s", a[0], ch, cert, algo, sp), a[0], a[1], pki.by[ch], pin, sp, func(e *c33Env) {
							e.judge(e.fresh())
						})
					}
				}
			}
		}
	}
	r.Bound("spelling: 5 forms of addresses x 4 chains x 3 pins in every spelling")

	// client certificates: kinds of keys, and who gets to see them
	for _, k := range []string{"", "-key-type rsa", "-key-type rsa -bits 2048", "-bits 1024", "-key-type ecdsa", "-key-type ed25519"} {
		for _, noReq := range []bool{false, true} {
			for _, v := range []uint16{tls.VersionTLS12, tls.VersionTLS13} {
				k, noReq, v := k, noReq, v
				world(fmt.Sprintf("client/%s/%v/%x", k, noReq, v), "ircs://name.test", "name.test:6697", pki.by["good"], "", "", func(e *c33Env) {
					e.s.max, e.s.noReq = v, noReq
					e.setSASL(strings.TrimSpace(k + " "))
					if k == "" {
						e.setSASL("-key-type rsa -bits 1024")
					}
					e.judge(e.fresh())
					if e.c.Bad() {
						return
					}
					if pc := e.s.conns[len(e.s.conns)-1].state.PeerCertificates; len(pc) > 0 {
						s1, s2 := sha1.Sum(pc[0].Raw), sha256.Sum256(pc[0].Raw)
						want := []string{"SHA-1 fingerprint: " + hex.EncodeToString(s1[:]), "SHA-256 fingerprint: " + hex.EncodeToString(s2[:]), "SHA-512 fingerprint: " + e.fp}
						if got := e.service("certfp fingerprint"); !kit.Eq(got, want) {
							e.c.Violatef("certfp fingerprint answers %q, the server sees %q", got, want)
						}
						if err := pc[0].CheckSignature(pc[0].SignatureAlgorithm, pc[0].RawTBSCertificate, pc[0].Signature); err != nil && pc[0].PublicKeyAlgorithm != x509.UnknownPublicKeyAlgorithm {
							e.c.Violatef("the client certificate is not signed by its key: %v", err)
						}
						switch pk := pc[0].PublicKey.(type) {
						case ed25519.PublicKey:
							e.c.Check(strings.Contains(k, "ed25519"), "an ed25519 key for %q", k)
						case *ecdsa.PublicKey:
							e.c.Check(strings.Contains(k, "ecdsa"), "an ECDSA key for %q", k)
							_ = pk
						default:
							e.c.Check(!strings.Contains(k, "ecdsa") && !strings.Contains(k, "ed25519"), "an RSA key for %q", k)
						}
						if n := pc[0].NotAfter.Sub(time.Now()); n < 24*365*time.Hour {
							e.c.Violatef("the client certificate only lasts %v", n)
						}
					}
					// another network of the same user is not shown the certificate
					s2 := c33Listen(e.w, "second.test:6697", &c33Chain{name: "second", trusted: true, certs: []*c33Cert{pki.certs["leaf"]}})
					e.service("network create -name second -addr ircs://second.test -certfp " + pki.certs["leaf"].pin("sha512"))
					e.w.Sleep(5 * time.Second)
					if !e.c.Check(len(s2.conns) > 0 && s2.up.Live() != nil, "the second network does not connect") {
						return
					}
					if pc := s2.conns[0].state.PeerCertificates; len(pc) > 0 {
						e.c.Violatef("a network without client certificate presents one (%v)", pc[0].Subject)
					}
					if len(s2.sasl) > 0 {
						e.c.Violatef("a network without SASL credentials authenticates: %q", s2.sasl)
					}
				})
			}
		}
	}

	// histories
	acts := []string{"good", "host", "self1", "self2+self1", "soon", "pin-self1", "pin-leaf", "unpin", "badpin", "plain", "ecdsa", "nosasl", "restart", "later", "addr"}
	hist := func(start string, pin string) func(key string, seq []string) {
		return func(key string, seq []string) {
			p := ""
			if pin != "" {
				p = pki.certs[pin].pin("sha512")
			}
			world(key, "ircs://name.test", "name.test:6697", pki.by[start], p, "", func(e *c33Env) {
				e.judge(e.fresh())
				for _, a := range seq {
					if e.c.Bad() {
						return
					}
					e.c.Step(a)
					if ch := pki.by[a]; ch != nil {
						e.s.chain = ch
					}
					switch a {
					case "pin-self1":
						e.pin = pki.certs["self1"].pin("sha256")
						e.service("network update -certfp " + e.pin)
					case "pin-leaf":
						e.pin = pki.certs["leaf"].pin("sha512")
						e.service("network update name -certfp " + c33Spell(e.pin, "colons"))
					case "unpin":
						e.pin = ""
						e.service("network update -certfp ''")
					case "badpin":
						for _, b := range []string{"abcd", "zz" + strings.Repeat("0", 62), strings.Repeat("0", 40), strings.Repeat("0", 130), "sha-512:" + strings.Repeat("0", 128), strings.Repeat("0", 63)} {
							if r := e.service("network update -certfp " + b); !e.c.Check(len(r) == 1 && strings.HasPrefix(r[0], "error"), "a network update with the fingerprint %q is answered with %q", b, r) {
								return
							}
						}
					case "plain":
						e.setSASL("plain")
					case "ecdsa":
						e.setSASL("-key-type ecdsa")
					case "nosasl":
						e.setSASL("")
					case "restart":
						e.w.Restart()
						e.cl = e.w.Connect("b", kit.ConnOpts{User: "u", Network: "name"})
					case "later":
						e.w.SleepCoarse(3 * time.Hour)
					case "addr":
						e.service("network update -addr name.test")
					}
					e.w.Settle()
					e.judge(e.fresh())
				}
			})
		}
	}
	depth := r.Pick(2, 3)
	for _, st := range []string{"good", "self1", "soon"} {
		for _, pin := range []string{"", "self1"} {
			r.Tree("history/"+st+"/"+pin, depth, func(seq []string) []string { return acts }, hist(st, pin))
		}
	}
}
