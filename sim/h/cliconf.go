//go:build go1.22

package h

import (
	"encoding/json"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"syscall"

	"github.com/hound-search/hound/zsim"
)

const (
	cliHome = "/home/hound"
	etcPath = "/etc/hound.conf"
	dotPath = cliHome + "/.hound"
)

// cliHosts are the addresses the machine has besides localhost.
var cliHosts = []string{"hound.corp:6080", "hound.corp:80", "code.example.com:80", "10.1.2.3:8080", "[fe80::1]:6080", "search:6080"}

func (c *CliConf) etc() string {
	if c == nil {
		return ""
	}
	return c.Etc
}

func (c *CliConf) home() string {
	if c == nil {
		return ""
	}
	return c.Home
}

// cliReq is a request the client has made.
type cliReq struct {
	addr, host, path string
	hdr              http.Header
}

// cliWant is what the client has to ask, and whom.
type cliWant struct {
	addrs []string // any of these
	vhost string
	hdr   map[string]string
	bad   bool // it must not ask anybody
	none  bool // nobody may be there
}

// cliSetup puts the configuration in place for p and says what follows from it.
func (r *Run) cliSetup(c *CliConf, p *zsim.Proc) *cliWant {
	w := r.W
	want := &cliWant{hdr: map[string]string{}, addrs: []string{"localhost:6080"}}
	port := "6080"
	w.Net.Hosts = map[string]string{}
	for _, a := range cliHosts {
		w.Net.Hosts[a] = port
	}
	if c == nil {
		return want
	}
	r.stat("cli-configured")
	if c.Flag != "" {
		want.addrs = []string{c.Flag}
	}
	host := ""
	for _, f := range []struct{ name, path, text string }{{"etc", etcPath, c.Etc}, {"home", dotPath, c.Home}} {
		if c.Dir == f.name {
			w.FS.PutDir(f.path)
			want.bad = true
			continue
		}
		if f.text == "" {
			continue
		}
		w.FS.Put(f.path, []byte(f.text), 0644)
		var x struct {
			Host *string           `json:"host"`
			Hdr  map[string]string `json:"http-headers"`
		}
		if err := json.Unmarshal([]byte(f.text), &x); err != nil {
			want.bad = true
		}
		if x.Host != nil {
			host = *x.Host
		}
		for k, v := range x.Hdr {
			if strings.EqualFold(k, "host") {
				want.vhost = v
			} else {
				want.hdr[k] = v
			}
		}
	}
	if host != "" {
		if c.Flag != "" {
			want.addrs = append(want.addrs, host)
		} else {
			want.addrs = []string{host}
		}
	}
	for _, a := range want.addrs {
		want.none = want.none || !r.answers(a)
	}
	if c.Err != "" {
		path := etcPath
		if c.ErrAt == "home" {
			path = dotPath
		}
		if n := w.FS.Node(path); n != nil {
			old := w.FaultsF
			e := errOf(c.Err).(syscall.Errno)
			want.bad = true
			w.FaultsF = func(o *zsim.Op) zsim.Fault {
				if o.Root == p && o.Kind == c.ErrOp && o.Path == path {
					return zsim.Fault{Err: e, Kind: "cli-conf-" + c.Err}
				}
				if old != nil {
					return old(o)
				}
				return zsim.Fault{}
			}
			r.cliRestore = func() { w.FaultsF = old }
		}
	}
	return want
}

// answers says whether the server can be reached under an address.
func (r *Run) answers(a string) bool {
	port, err := r.W.Net.Dial(a)
	return err == nil && port == "6080"
}

func (r *Run) cliTeardown() {
	if r.cliRestore != nil {
		r.cliRestore()
		r.cliRestore = nil
	}
	r.W.FS.Del(etcPath)
	r.W.FS.Del(dotPath)
}

// judge compares what the client has asked with what it was to ask.
func (w *cliWant) judge(asked []*cliReq, success bool) string {
	if w.bad {
		if len(asked) > 0 {
			return fmt.Sprintf("its configuration cannot be read, yet it asks %s for %s", asked[0].addr, asked[0].path)
		}
		if success {
			return "its configuration cannot be read, yet it ends with success"
		}
		return ""
	}
	first := ""
	for _, a := range asked {
		ok := false
		for _, x := range w.addrs {
			ok = ok || a.addr == x
		}
		if !ok {
			return fmt.Sprintf("it asks %s for %s, not %s", a.addr, a.path, strings.Join(w.addrs, " or "))
		}
		if first == "" {
			first = a.addr
		}
		if a.addr != first {
			return fmt.Sprintf("it asks %s and %s", first, a.addr)
		}
		vh := w.vhost
		if vh == "" {
			vh = a.addr
		}
		if a.host != vh && !(w.vhost == "" && a.host == "") {
			return fmt.Sprintf("it asks for %s of the host %q, not %q", a.path, a.host, vh)
		}
		ks := []string{}
		for k := range w.hdr {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if got := a.hdr.Values(k); len(got) != 1 || got[0] != w.hdr[k] {
				return fmt.Sprintf("it asks for %s with the header %s: %q, not %q", a.path, k, got, w.hdr[k])
			}
		}
	}
	return ""
}

// genC36 runs the client under many configurations.
func genC36(g *G) {
	genC16(g)
	for _, s := range g.P.Steps {
		if s.Op != "cli" {
			continue
		}
		s.OutErr = ""
		if g.Intn(3) > 0 {
			s.Net = nil
		}
		if g.Intn(8) > 0 {
			s.Cli = g.cliConf()
		}
	}
	for i := g.Range(1, 5); i > 0; i-- {
		g.add(&Step{Op: "cli", Q: g.q(), Cli: g.cliConf()})
	}
}

func (g *G) cliConf() *CliConf {
	c := &CliConf{}
	names := map[string]string{}
	for _, n := range []string{"Authorization", "X-Token", "Cookie", "Host", "User-Agent", "X-Empty", "Accept"} {
		names[n] = n
		if g.Intn(4) == 0 {
			names[n] = strings.ToLower(n)
		}
		if g.Intn(8) == 0 {
			names[n] = strings.ToUpper(n)
		}
	}
	keys := make([]string, 0, len(names))
	for k := range names {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	addr := func() string {
		if g.Intn(8) == 0 {
			return g.pick("localhost:6081", "hound.corp:6081", "nowhere.example:6080") // nobody there
		}
		a := append([]string{"localhost:6080", "127.0.0.1:6080"}, cliHosts...)
		return strings.TrimSuffix(a[g.Intn(len(a))], ":80")
	}
	one := func() string {
		m := map[string]interface{}{}
		if g.Intn(2) == 0 {
			m["host"] = addr()
		}
		if g.Intn(3) > 0 {
			h := map[string]string{}
			for i := g.Range(0, 3); i > 0; i-- {
				k := keys[g.Intn(len(keys))]
				v := g.pick("a", "b", "Bearer x.y-z", "k=v; l=w", "with space", "caf\u00e9", "0")
				if k == "Host" {
					v = g.pick("virtual.example", "hound", "virtual.example:81")
				}
				if k == "X-Empty" {
					v = ""
				}
				h[names[k]] = v
			}
			m["http-headers"] = h
		}
		if g.Intn(6) == 0 {
			m["something-else"] = 1
		}
		b, _ := json.Marshal(m)
		if g.Intn(3) == 0 {
			b, _ = json.MarshalIndent(m, "", "\t")
		}
		s := string(b)
		if g.Intn(12) == 0 {
			s = s[:g.Range(1, len(s)-1)] // torn
		} else if g.Intn(14) == 0 {
			s = g.pick("host=hound.corp", `{"host": 5}`, `{"http-headers": ["a"]}`, `{"http-headers": {"X-Token": 1}}`, "[]", `{"host" "a"}`, "<conf/>")
		} else if g.Intn(3) == 0 {
			s += "\n"
		}
		return s
	}
	if g.Intn(3) > 0 {
		c.Etc = one()
	}
	if g.Intn(3) > 0 {
		c.Home = one()
	}
	if g.Intn(4) == 0 {
		c.Flag = addr()
	}
	switch g.Intn(10) {
	case 0:
		c.Err, c.ErrAt, c.ErrOp = g.pick("EIO", "EACCES", "EMFILE"), g.pick("etc", "home"), g.pick("open", "read")
		if c.ErrOp == "read" {
			c.Err = "EIO"
		}
	case 1:
		if g.Intn(2) == 0 {
			c.Dir = g.pick("etc", "home")
		}
	}
	return c
}
