package props

import (
	"bufio"
	"bytes"
	"context"
	"crypto/rand"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"mime"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"codeberg.org/emersion/soju/auth"
	"codeberg.org/emersion/soju/database"
	"codeberg.org/emersion/soju/fileupload"

	"sojuverif/kit"
)

// C21: uploaded files are authenticated, contained and returned unmodified.
//
// The handler is driven with parsed raw HTTP requests. The upload directory
// lies six levels deep in a scratch directory, no name used here climbs higher
// than that, and absolute names point into the scratch directory as well, so
// an implementation that lets a write escape still only reaches scratch files.

type c21Auth map[string]string // user → password, or token → user

func (a c21Auth) AuthPlain(ctx context.Context, db database.Database, username, password string) error {
	if pw, ok := a[username]; ok && pw == password {
		return nil
	}
	return &auth.Error{InternalErr: errors.New("no"), ExternalMsg: "Invalid credentials"}
}

func (a c21Auth) AuthOAuthBearer(ctx context.Context, db database.Database, token string) (string, error) {
	if u, ok := a[token]; ok {
		return u, nil
	}
	return "", errors.New("bad token")
}

type c21World struct {
	c     *kit.Ctx
	root  string // scratch
	dir   string // uploads
	h     *fileupload.Handler
	plain c21Auth
	toks  c21Auth
}

const c21Secret = "TOP SECRET outside of the directory"

func c21New(c *kit.Ctx) *c21World {
	root, err := os.MkdirTemp("", "verif-up-")
	if err != nil {
		panic(err)
	}
	w := &c21World{c: c, root: root, plain: c21Auth{"alice": "pw-a", "bob": "pw-b", "off": "pw-o", "offadmin": "pw-oa"}, toks: c21Auth{"tok-a": "alice", "tok-o": "off", "tok-oa": "offadmin"}}
	base := filepath.Join(root, "1/2/3/4/5")
	w.dir = filepath.Join(base, "uploads")
	if err := os.MkdirAll(w.dir, 0700); err != nil {
		panic(err)
	}
	for _, f := range []string{filepath.Join(base, "secret"), filepath.Join(root, "secret"), filepath.Join(base, "uploads-secret")} {
		os.WriteFile(f, []byte(c21Secret), 0600)
	}
	up, err := fileupload.New("fs", w.dir)
	if err != nil {
		panic(err)
	}
	db, err := database.OpenTempSqliteDB()
	if err != nil {
		panic(err)
	}
	for u := range w.plain {
		r := database.NewUser(u)
		r.Enabled = u != "off" && u != "offadmin"
		r.Admin = u == "offadmin"
		db.StoreUser(context.Background(), r)
	}
	w.h = &fileupload.Handler{Uploader: up, DB: db, Auth: &auth.Authenticator{Plain: w.plain, OAuthBearer: w.toks}, HTTPOrigins: []string{"ok.example", "*.wild.example"}}
	return w
}

func (w *c21World) close() {
	w.h.DB.Close()
	os.RemoveAll(w.root)
}

// tree lists every file of the scratch directory with its content.
func (w *c21World) tree() map[string]string {
	m := map[string]string{}
	filepath.WalkDir(w.root, func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(w.root, p)
			m[rel] = string(b)
		}
		return nil
	})
	return m
}

func c21Diff(a, b map[string]string) (added []string, changed bool) {
	for k, v := range b {
		if o, ok := a[k]; !ok {
			added = append(added, k)
		} else if o != v {
			changed = true
		}
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			changed = true
		}
	}
	sort.Strings(added)
	return
}

// do sends a raw request: the header lines, then the body.
func (w *c21World) do(line string, header []string, body io.Reader, length int64) *http.Response {
	var b strings.Builder
	b.WriteString(line + " HTTP/1.1\r\nHost: up.example\r\n")
	for _, h := range header {
		b.WriteString(h + "\r\n")
	}
	switch {
	case length >= 0:
		fmt.Fprintf(&b, "Content-Length: %d\r\n", length)
	case body != nil:
		b.WriteString("Transfer-Encoding: chunked\r\n")
	}
	b.WriteString("\r\n")
	r := io.Reader(strings.NewReader(b.String()))
	if body != nil {
		r = io.MultiReader(r, body)
	}
	req, err := http.ReadRequest(bufio.NewReader(r))
	if err != nil {
		return nil // not a valid request: a server would refuse it
	}
	rec := httptest.NewRecorder()
	func() {
		defer func() {
			if e := recover(); e != nil {
				w.c.Violatef("%s panics: %v", line, e)
			}
		}()
		w.h.ServeHTTP(rec, req)
	}()
	return rec.Result()
}

func c21Body(r *http.Response) string {
	b, _ := io.ReadAll(r.Body)
	return string(b)
}

func c21Basic(u, p string) string {
	return "Authorization: Basic " + base64.StdEncoding.EncodeToString([]byte(u+":"+p))
}

func c21Safe(ct string) bool {
	t, _, err := mime.ParseMediaType(ct)
	if err != nil {
		return false
	}
	switch {
	case t == "text/plain", t == "application/pdf":
		return true
	case t == "image/svg+xml":
		return false
	}
	return strings.HasPrefix(t, "image/") || strings.HasPrefix(t, "audio/") || strings.HasPrefix(t, "video/")
}

// fetch reads a stored file back in all ways and checks content and headers.
func (w *c21World) fetch(loc, content string) {
	c := w.c
	for _, method := range []string{"GET", "HEAD"} {
		r := w.do(method+" "+loc, nil, nil, -1)
		if !c.Check(r != nil && r.StatusCode == 200, "%s %s: %v", method, loc, r) {
			return
		}
		got := c21Body(r)
		if method == "GET" {
			c.Check(got == content, "GET %s returns %d bytes, %d were stored; or different content", loc, len(got), len(content))
		} else {
			c.Check(got == "", "HEAD %s has a body", loc)
		}
		c.Check(r.Header.Get("Content-Length") == fmt.Sprint(len(content)), "%s %s: length %s", method, loc, r.Header.Get("Content-Length"))
		csp := r.Header.Get("Content-Security-Policy")
		c.Check(strings.Contains(csp, "sandbox") && !strings.Contains(csp, "allow-scripts") && !strings.Contains(csp, "allow-same-origin"), "%s: policy %q", loc, csp)
		ct, disp := r.Header.Get("Content-Type"), r.Header.Get("Content-Disposition")
		mode, _, _ := strings.Cut(disp, ";")
		c.Check(ct != "", "%s: no content type", loc)
		c.Check(strings.TrimSpace(mode) == "attachment" || strings.TrimSpace(mode) == "inline" && c21Safe(ct), "%s of type %s is served as %q", loc, ct, disp)
	}
}

// store uploads content as user and checks where it goes.
func (w *c21World) store(user string, auth string, header []string, content string) (loc string) {
	c := w.c
	before := w.tree()
	r := w.do("POST /uploads", append(append([]string(nil), header...), auth), strings.NewReader(content), int64(len(content)))
	added, changed := c21Diff(before, w.tree())
	c.Check(!changed, "an upload changes other files")
	if r == nil {
		return ""
	}
	if r.StatusCode != 201 {
		c.Check(r.StatusCode >= 400, "status %d", r.StatusCode)
		c.Check(len(added) == 0, "a refused upload (%d) stores %q", r.StatusCode, added)
		c.Check(r.Header.Get("Location") == "", "a refused upload has a location")
		return ""
	}
	loc = r.Header.Get("Location")
	if !c.Check(len(added) == 1, "an upload stores the files %q", added) {
		return ""
	}
	in, err := filepath.Rel(w.dir, filepath.Join(w.root, added[0]))
	c.Check(err == nil && in != ".." && !strings.HasPrefix(in, "../"), "the file is stored outside of the directory: %s", added[0])
	parts := strings.Split(in, "/")
	c.Check(len(parts) == 2, "the file is stored at %s", in)
	switch user {
	case "alice", "bob":
		c.Check(parts[0] == user, "the file of %s is stored at %s", user, in)
	default:
		c.Check(parts[0] != "alice" && parts[0] != "bob", "the file of %q is stored at %s", user, in)
	}
	fi, err := os.Stat(filepath.Join(w.root, added[0]))
	c.Check(err == nil && fi.Mode().Perm()&0007 == 0, "the file is accessible to everybody: %v", fi)
	u, err := url.Parse(loc)
	c.Check(err == nil && u.Host == "" && u.Scheme == "" && strings.HasPrefix(u.Path, "/uploads/"), "location %q", loc)
	w.fetch(loc, content)
	return loc
}

// ---- names and types ----------------------------------------------------------

func c21Names(root string) []string {
	return []string{"", "a.txt", "a", "../x.txt", "../../bob/x", "..", ".", "/", "a/b.txt", root + "/abs.txt", "x\\y.txt", strings.Repeat("n", 100) + ".png", strings.Repeat("n", 300),
		"ünï ☃.pdf", "a%2fb", "..%2f..%2fx", "a;b=c", "qu'ote\"", "-dash", ".htaccess", "x.html", "x.svg", "x.HTML", "x.txt.html", "x.js", "x.xml", "x.xhtml", "x.pdf", "x.unknownext", "nul\x00byte", "new\nline", "a?b#c", "a:b", "a&b=c+d", " ", "trailing.", "a-b-c.txt", "two-parts", "x.jpeg", "x.mp4"}
}

func c21Disp(name string) []string {
	l := []string{"Content-Disposition: attachment; filename*=UTF-8''" + url.PathEscape(name)}
	if !strings.ContainsAny(name, "\x00\n") {
		l = append(l, `Content-Disposition: attachment; filename="`+strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(name)+`"`)
	}
	return l
}

var c21Types = []string{"", "text/plain", "text/html", "image/svg+xml", "image/png", "image/jpeg", "application/octet-stream", "text/plain; charset=utf-8", "TEXT/HTML", "application/xhtml+xml", "video/mp4", "x/../../y", "text/plain; charset=utf-16"}

var c21Contents = []string{"", "x", "<html><script>alert(1)</script>", "<?xml version=\"1.0\"?><svg onload=alert(1)>", "%PDF-1.4 ", "\x89PNG\x0D\x0A\x1A\x0A" + strings.Repeat("\x00", 600), strings.Repeat("ab", 256), strings.Repeat("abc", 40000)}

// ---- the check -------------------------------------------------------------------

type c21FailBody struct {
	chunks []string
	at     int
	err    error
	i      int
}

func (b *c21FailBody) Read(p []byte) (int, error) {
	if b.i == b.at {
		return 0, b.err
	}
	if b.i == len(b.chunks) {
		return 0, io.EOF
	}
	n := copy(p, b.chunks[b.i])
	if n < len(b.chunks[b.i]) {
		b.chunks[b.i] = b.chunks[b.i][n:]
	} else {
		b.i++
	}
	return n, nil
}

// c21Rand returns the same bytes n times before it becomes random.
type c21Rand struct {
	same int
	real io.Reader
}

func (r *c21Rand) Read(p []byte) (int, error) {
	if r.same > 0 {
		r.same--
		for i := range p {
			p[i] = 0xab
		}
		return len(p), nil
	}
	return r.real.Read(p)
}

func TestC21(t *testing.T) {
	r := kit.Start(t, "C21")

	// 1. who can upload, where and how
	auths := map[string]string{
		"none": "", "ok": c21Basic("alice", "pw-a"), "bad-pass": c21Basic("alice", "pw-b"), "empty-pass": c21Basic("alice", ""), "unknown": c21Basic("mallory", "pw-a"), "empty": c21Basic("", ""),
		"off": c21Basic("off", "pw-o"), "offadmin": c21Basic("offadmin", "pw-oa"), "bearer-offadmin": "Authorization: Bearer tok-oa", "no-param": "Authorization: Basic", "not-base64": "Authorization: Basic ***", "no-colon": "Authorization: Basic " + base64.StdEncoding.EncodeToString([]byte("alice")),
		"lower": strings.Replace(c21Basic("alice", "pw-a"), "Basic", "basic", 1), "scheme": "Authorization: Digest alice", "bearer": "Authorization: Bearer tok-a", "bearer-bad": "Authorization: Bearer tok-x", "bearer-empty": "Authorization: Bearer ",
		"bearer-off": "Authorization: Bearer tok-o", "bearer-pass": "Authorization: Bearer pw-a", "basic-token": "Authorization: Basic tok-a", "swap": strings.Replace(c21Basic("alice", "pw-a"), "Basic", "Bearer", 1), "cookie": "Cookie: user=alice",
	}
	good := map[string]bool{"ok": true, "lower": true, "bearer": true}
	methods := []string{"POST", "PUT", "GET", "HEAD", "DELETE", "PATCH", "OPTIONS", "post"}
	paths := []string{"/uploads", "/uploads/", "/uploads/x", "/upload", "/uploads/../uploads", "/", "//uploads", "/uploads?x=1", "/UPLOADS"}
	backends := []string{"both", "plain", "oauth"}
	for _, be := range backends {
		for _, an := range kit.Keys(auths) {
			r.Plain("auth:"+be+"/"+an, func(c *kit.Ctx) {
				w := c21New(c)
				defer w.close()
				ok := good[an]
				switch be {
				case "plain":
					w.h.Auth.OAuthBearer = nil
					ok = ok && an != "bearer"
				case "oauth":
					w.h.Auth.Plain = nil
					ok = an == "bearer"
				}
				for _, m := range methods {
					for _, p := range paths {
						before := w.tree()
						var hd []string
						if auths[an] != "" {
							hd = append(hd, auths[an])
						}
						resp := w.do(m+" "+p, hd, strings.NewReader("data"), 4)
						if resp == nil {
							continue
						}
						added, changed := c21Diff(before, w.tree())
						u, _ := url.Parse(p)
						want := ok && m == "POST" && u.Path == "/uploads"
						c.Check(!changed, "%s %s changes files", m, p)
						if want {
							c.Check(resp.StatusCode == 201 && len(added) == 1 && resp.Header.Get("Location") != "", "%s %s with %s: %d, stored %q", m, p, an, resp.StatusCode, added)
						} else {
							c.Check(resp.StatusCode != 201 && len(added) == 0 && resp.Header.Get("Location") == "", "%s %s with %s: %d, stored %q", m, p, an, resp.StatusCode, added)
							c.Check(m == "OPTIONS" || resp.StatusCode >= 400, "%s %s with %s: %d", m, p, an, resp.StatusCode)
						}
						if m == "POST" && u.Path == "/uploads" && !ok {
							c.Check(resp.StatusCode == 400 || resp.StatusCode == 401 || resp.StatusCode == 403, "%s %s with %s: %d", m, p, an, resp.StatusCode)
						}
					}
				}
			})
			r.Count(len(methods)*len(paths), len(methods)*len(paths))
		}
	}
	// origins
	for _, origin := range []string{"", "https://up.example", "http://UP.example", "https://ok.example", "https://x.wild.example", "https://evil.example", "https://up.example.evil", "null", "https://ok.example:444", "https://up.example:444", "https://up.example:", "https://x.y.wild.example", "https://wild.example", "https://ok.example@evil.example", "https://ok.examplex", "%zz"} {
		r.Plain("origin:"+origin, func(c *kit.Ctx) {
			w := c21New(c)
			defer w.close()
			hd := []string{auths["ok"]}
			if origin != "" {
				hd = append(hd, "Origin: "+origin)
			}
			allowed := origin == "" || origin == "https://up.example" || origin == "http://UP.example" || origin == "https://ok.example" || origin == "https://x.wild.example" || origin == "https://x.y.wild.example" || origin == "https://ok.example:"
			for _, m := range []string{"POST", "OPTIONS"} {
				before := w.tree()
				resp := w.do(m+" /uploads", hd, strings.NewReader("data"), 4)
				added, _ := c21Diff(before, w.tree())
				acao := resp.Header.Get("Access-Control-Allow-Origin")
				if allowed {
					c.Check(resp.StatusCode < 300 && acao == origin, "%s with origin %q: %d %q", m, origin, resp.StatusCode, acao)
				} else {
					c.Check(resp.StatusCode == 403 && acao == "" && len(added) == 0, "%s with origin %q: %d %q %q", m, origin, resp.StatusCode, acao, added)
				}
			}
		})
	}

	// 2. every name with every type and content
	for ni := range c21Names("") {
		for ti, ty := range c21Types {
			if !r.Thorough() && ni%3 != ti%3 && ti > 3 {
				continue
			}
			r.Plain(fmt.Sprintf("name:%d/%d", ni, ti), func(c *kit.Ctx) {
				w := c21New(c)
				defer w.close()
				name := c21Names(w.root)[ni]
				for _, content := range c21Contents {
					for _, disp := range c21Disp(name) {
						hd := []string{disp}
						if ty != "" {
							hd = append(hd, "Content-Type: "+ty)
						}
						loc := w.store("alice", auths["ok"], hd, content)
						if loc == "" {
							// ordinary names of ordinary types have to work
							c.Check(!(ni < 3 && ti < 6), "an upload of %q as %q fails", name, ty)
							continue
						}
						// the name survives
						if base := path.Base(name); name != "" && base != "/" {
							resp := w.do("GET "+loc, nil, nil, -1)
							_, ps, _ := mime.ParseMediaType(resp.Header.Get("Content-Disposition"))
							c.Check(strings.HasPrefix(ps["filename"], base) && (path.Ext(base) == "" || ps["filename"] == base), "the file %q comes back as %q", name, ps["filename"])
						}
						if ty == "" && path.Ext(name) == ".html" {
							resp := w.do("GET "+loc, nil, nil, -1)
							c.Check(strings.HasPrefix(resp.Header.Get("Content-Disposition"), "attachment"), "%q is displayed inline", name)
						}
					}
					if c.Bad() {
						return
					}
				}
			})
			r.Count(len(c21Contents), len(c21Contents)*2)
		}
	}

	// 3. users with awkward names
	users := []string{"..", ".", "../evil", "../../secretdir", "alice/sub", "a/../alice", "alice/", "alice/.", "/alice", "./alice", "u%2Fv", "u/v", "user name", "ü", "x\\y", "-"}
	for i, u := range users {
		r.Plain("user:"+fmt.Sprint(i), func(c *kit.Ctx) {
			w := c21New(c)
			defer w.close()
			w.plain[u] = "pw"
			w.toks["tok"] = u
			rec := database.NewUser(u)
			w.h.DB.StoreUser(context.Background(), rec)
			locs := map[string]bool{}
			for _, a := range []string{c21Basic(u, "pw"), "Authorization: Bearer tok"} {
				for _, name := range []string{"", "f.txt", "../g"} {
					var hd []string
					if name != "" {
						hd = c21Disp(name)[:1]
					}
					if loc := w.store(u, a, hd, "content of "+u); loc != "" {
						c.Check(!locs[loc], "location %s is used twice", loc)
						locs[loc] = true
					}
				}
			}
			// two users do not share an area
			dirs := map[string]string{}
			for _, v := range users {
				w.toks["tok"] = v
				before := w.tree()
				w.do("POST /uploads", []string{"Authorization: Bearer tok"}, strings.NewReader("x"), 1)
				if added, _ := c21Diff(before, w.tree()); len(added) == 1 {
					d := path.Dir(added[0])
					c.Check(dirs[d] == "" || dirs[d] == v, "the users %q and %q share the area %s", dirs[d], v, d)
					dirs[d] = v
				}
			}
		})
	}

	// 4. fetching: every path shape over the stored files
	r.Plain("fetch", func(c *kit.Ctx) {
		w := c21New(c)
		defer w.close()
		la := w.store("alice", auths["ok"], c21Disp("doc.txt")[:1], "alice's document")
		lb := w.store("bob", c21Basic("bob", "pw-b"), nil, "bob's document")
		if la == "" || lb == "" {
			return
		}
		content := map[string]string{la: "alice's document", lb: "bob's document"}
		tails := []string{la[len("/uploads/"):], lb[len("/uploads/"):], "alice", "alice/", "", ".", "..", "secret", "uploads-secret", strings.TrimPrefix(la, "/uploads/alice/"), w.root + "/secret"}
		pre := []string{"/uploads/", "/uploads//", "/uploads/./", "/uploads/../", "/uploads/../../", "/uploads/../../../", "/uploads/%2e%2e/", "/uploads/..%2f", "/uploads/%2e%2e%2f%2e%2e%2f", "/uploads/alice/", "/uploads/alice/../", "/uploads/bob/../alice/", "/uploads/..\\", "/uploads/%5c..%5c", "/uploads", "/uploads-", "/", "//", "/x/../uploads/", "/uploads/alice/..%2f..%2f", "/uploads/%00", "/uploads/alice%2f"}
		n := 0
		for _, p := range pre {
			for _, tl := range tails {
				for _, suf := range []string{"", "/", "/.", "/..", "?x=/../", "%00", "%2f..%2f..%2fsecret", ".txt"} {
					target := p + tl + suf
					for _, m := range []string{"GET", "HEAD"} {
						n++
						resp := w.do(m+" "+target, nil, nil, -1)
						if resp == nil {
							continue
						}
						body := c21Body(resp)
						c.Check(!strings.Contains(body, "TOP SECRET"), "%s %s returns a file outside of the directory", m, target)
						if resp.StatusCode < 300 {
							named := false
							for loc, data := range content {
								tok := path.Base(loc)
								named = named || strings.Contains(target, tok) && (m == "HEAD" || body == data)
							}
							c.Check(named, "%s %s: %d %q", m, target, resp.StatusCode, body)
						} else {
							c.Check(resp.StatusCode >= 300 && !strings.Contains(body, "document"), "%s %s: %d %q", m, target, resp.StatusCode, body)
						}
						if w.c.Bad() {
							return
						}
					}
				}
			}
		}
		r.Count(n, n)
		// nobody else's area can be listed, nothing can be removed or changed
		before := w.tree()
		for _, m := range []string{"DELETE", "PUT", "POST", "PATCH", "PROPFIND", "MOVE"} {
			for _, p := range []string{la, lb, "/uploads/alice", "/uploads/"} {
				w.do(m+" "+p, []string{auths["ok"]}, strings.NewReader("changed"), 7)
			}
		}
		added, changed := c21Diff(before, w.tree())
		c.Check(len(added) == 0 && !changed, "files are changed: %q", added)
		w.fetch(la, "alice's document")
		w.fetch(lb, "bob's document")
	})
	r.Plain("ranges", func(c *kit.Ctx) {
		w := c21New(c)
		defer w.close()
		data := "0123456789"
		loc := w.store("alice", auths["ok"], c21Disp("d.bin")[:1], data)
		for i := 0; i < 10; i++ {
			for j := i; j < 10; j++ {
				resp := w.do("GET "+loc, []string{fmt.Sprintf("Range: bytes=%d-%d", i, j)}, nil, -1)
				got := c21Body(resp)
				c.Check(resp.StatusCode == 206 && got == data[i:j+1] || resp.StatusCode == 200 && got == data, "bytes %d-%d: %d %q", i, j, resp.StatusCode, got)
			}
		}
		r.Count(55, 55)
	})

	// 5. the upload fails at every point
	for _, kind := range []string{"length", "chunked", "error"} {
		for n := 0; n <= 4; n++ {
			for at := 0; at < n; at++ {
				r.Plain(fmt.Sprintf("fail:%s/%d/%d", kind, n, at), func(c *kit.Ctx) {
					w := c21New(c)
					defer w.close()
					old := w.store("alice", auths["ok"], c21Disp("keep.txt")[:1], "keep")
					before := w.tree()
					for _, size := range []int{1, 1000, 40000} {
						var chunks []string
						for i := 0; i < n; i++ {
							ch := strings.Repeat(string(rune('a'+i)), size)
							if kind == "chunked" {
								ch = fmt.Sprintf("%x\r\n%s\r\n", size, ch)
							}
							chunks = append(chunks, ch)
						}
						if kind == "chunked" {
							chunks = append(chunks, "0\r\n\r\n")
						}
						b := &c21FailBody{chunks: chunks, at: at, err: io.EOF}
						if kind == "error" {
							b.err = errors.New("connection reset")
						}
						length := int64(n * size)
						if kind == "chunked" {
							length = -1
						}
						resp := w.do("POST /uploads", []string{auths["ok"], c21Disp("f.txt")[0]}, b, length)
						if resp == nil {
							continue
						}
						c.Check(resp.StatusCode >= 400 && resp.Header.Get("Location") == "", "a truncated upload is answered with %d %s", resp.StatusCode, resp.Header.Get("Location"))
						added, changed := c21Diff(before, w.tree())
						c.Check(len(added) == 0 && !changed, "a truncated upload leaves %q", added)
					}
					w.fetch(old, "keep")
					w.store("alice", auths["ok"], nil, "still works")
				})
			}
		}
	}
	for _, decl := range []bool{true, false} {
		r.Plain(fmt.Sprintf("too-large/%v", decl), func(c *kit.Ctx) {
			w := c21New(c)
			defer w.close()
			before := w.tree()
			const big = 50*1024*1024 + 1
			var resp *http.Response
			if decl {
				resp = w.do("POST /uploads", []string{auths["ok"]}, strings.NewReader("x"), big)
			} else {
				chunk := strings.Repeat("z", 1<<20)
				var b bytes.Buffer
				for i := 0; i < 51; i++ {
					fmt.Fprintf(&b, "%x\r\n%s\r\n", len(chunk), chunk)
				}
				b.WriteString("0\r\n\r\n")
				resp = w.do("POST /uploads", []string{auths["ok"]}, &b, -1)
			}
			added, changed := c21Diff(before, w.tree())
			c.Check(resp.StatusCode == 413 && len(added) == 0 && !changed && resp.Header.Get("Location") == "", "an upload that is too large: %d, %q", resp.StatusCode, added)
		})
	}
	r.Plain("blocked", func(c *kit.Ctx) {
		w := c21New(c)
		defer w.close()
		// the user's area cannot be created
		os.WriteFile(filepath.Join(w.dir, "alice"), []byte("not a directory"), 0600)
		before := w.tree()
		resp := w.do("POST /uploads", []string{auths["ok"]}, strings.NewReader("data"), 4)
		added, changed := c21Diff(before, w.tree())
		c.Check(resp.StatusCode >= 500 && len(added) == 0 && !changed, "%d %q", resp.StatusCode, added)
	})
	r.Plain("disabled", func(c *kit.Ctx) {
		w := c21New(c)
		defer w.close()
		w.h.Uploader = nil
		for _, m := range []string{"GET", "POST"} {
			resp := w.do(m+" /uploads", []string{auths["ok"]}, strings.NewReader("data"), 4)
			c.Check(resp.StatusCode == 404, "%d", resp.StatusCode)
		}
	})

	// 6. colliding names never overwrite
	for _, name := range []string{"", "f.txt"} {
		for same := 0; same <= 6; same++ {
			r.Plain(fmt.Sprintf("collide:%s/%d", name, same), func(c *kit.Ctx) {
				w := c21New(c)
				defer w.close()
				real := rand.Reader
				defer func() { rand.Reader = real }()
				var hd []string
				if name != "" {
					hd = c21Disp(name)[:1]
				}
				rand.Reader = &c21Rand{same: same, real: real}
				locs := map[string]string{}
				for i := 0; i < 4; i++ {
					content := fmt.Sprintf("content %d", i)
					loc := w.store("alice", auths["ok"], hd, content)
					c.Check(loc != "" && locs[loc] == "", "upload %d: location %q", i, loc)
					locs[loc] = content
				}
				for loc, content := range locs {
					w.fetch(loc, content)
				}
			})
		}
		r.Plain("unguessable:"+name, func(c *kit.Ctx) {
			w := c21New(c)
			defer w.close()
			var hd []string
			if name != "" {
				hd = c21Disp(name)[:1]
			}
			// Every bit of the random source matters: at least 32 bits are used.
			seen := map[string]bool{}
			real := rand.Reader
			defer func() { rand.Reader = real }()
			for bit := -1; bit < 32; bit++ {
				rand.Reader = &c21Bit{bit: bit, real: real}
				loc := w.store("alice", auths["ok"], hd, "x")
				c.Check(!seen[loc], "the name %s does not depend on bit %d of the random source", loc, bit)
				seen[loc] = true
				os.RemoveAll(filepath.Join(w.dir, "alice"))
			}
		})
	}

	// 7. the HTTP backend
	c21HTTP(r, auths["ok"])
}

// c21Bit is a source with one bit set in its first bytes.
type c21Bit struct {
	bit  int
	n    int
	real io.Reader
}

func (b *c21Bit) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 0
		if b.bit >= 0 && b.n == b.bit/8 {
			p[i] = 1 << (b.bit % 8)
		}
		b.n++
	}
	return len(p), nil
}

type c21RT func(*http.Request) (*http.Response, error)

func (f c21RT) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func c21HTTP(r *kit.Run, okAuth string) {
	type reply struct {
		status   int
		location string
		err      bool
	}
	replies := []reply{{201, "https://cdn.example/f", false}, {201, "/rel", false}, {201, "", false}, {200, "https://cdn.example/f", false}, {403, "", false}, {500, "", false}, {413, "https://x", false}, {0, "", true}}
	for ri, rep := range replies {
		for ni, name := range []string{"", "a.txt", "../../x", "ünï.png"} {
			for fail := 0; fail <= 2; fail++ {
				r.Plain(fmt.Sprintf("http:%d/%d/%d", ri, ni, fail), func(c *kit.Ctx) {
					w := c21New(c)
					defer w.close()
					up, err := fileupload.New("http", "http://backend.test/put")
					if err != nil {
						panic(err)
					}
					w.h.Uploader = up
					var got []string
					old := http.DefaultTransport
					defer func() { http.DefaultTransport = old }()
					http.DefaultTransport = c21RT(func(req *http.Request) (*http.Response, error) {
						b, err := io.ReadAll(req.Body)
						if err != nil {
							return nil, err
						}
						_, ps, _ := mime.ParseMediaType(req.Header.Get("Content-Disposition"))
						got = append(got, fmt.Sprintf("%s %s %s %s %q %q", req.Method, req.URL, req.Header.Get("Soju-Username"), req.Header.Get("Content-Type"), ps["filename"], b))
						c.Check(req.Header.Get("Authorization") == "", "the user's credentials are passed on")
						if rep.err {
							return nil, errors.New("down")
						}
						resp := &http.Response{StatusCode: rep.status, Header: http.Header{}, Body: io.NopCloser(strings.NewReader("backend says")), Request: req}
						if rep.location != "" {
							resp.Header.Set("Location", rep.location)
						}
						return resp, nil
					})
					hd := []string{okAuth, "Content-Type: text/plain", "Soju-Username: bob"}
					if name != "" {
						hd = append(hd, c21Disp(name)[0])
					}
					var body io.Reader = strings.NewReader("datadata")
					if fail > 0 {
						body = &c21FailBody{chunks: []string{"data", "data"}, at: fail - 1, err: io.EOF}
					}
					resp := w.do("POST /uploads", hd, body, 8)
					if fail > 0 {
						c.Check(resp.StatusCode >= 400 && resp.Header.Get("Location") == "", "a truncated upload is answered with %d", resp.StatusCode)
						c.Check(len(got) == 0, "the backend received %q", got)
						return
					}
					base := ""
					if name != "" {
						base = path.Base(name)
					}
					want := fmt.Sprintf("POST http://backend.test/put alice text/plain %q %q", base, "datadata")
					c.Check(len(got) == 1 && got[0] == want, "the backend received %q, expected %q", got, want)
					loc := resp.Header.Get("Location")
					if rep.status == 201 && rep.location != "" {
						c.Check(resp.StatusCode == 201 && loc == rep.location, "%d %q", resp.StatusCode, loc)
					} else {
						c.Check(resp.StatusCode >= 400 && loc == "", "backend reply %v: %d %q", rep, resp.StatusCode, loc)
					}
					resp = w.do("POST /uploads", []string{c21Basic("alice", "nope")}, strings.NewReader("datadata"), 8)
					c.Check(resp.StatusCode == 403 && len(got) == 1, "an unauthenticated upload reaches the backend")
				})
			}
		}
	}
}
