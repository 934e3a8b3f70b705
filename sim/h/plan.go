//go:build go1.22

package h

import (
	"encoding/json"
	"fmt"
	"path"

	"github.com/hound-search/hound/zsim"
)

// Plan is a complete, explicit description of one simulated run: what there is
// at the start, what the clients, upstreams and operator do, and what may fail.
// Together with the decisions recorded it determines the run exactly.
type Plan struct {
	Prop    string        `json:"prop"`
	Seed    uint64        `json:"seed"`
	Sched   zsim.Sched    `json:"sched"`
	Remotes []*RemoteSpec `json:"remotes,omitempty"`
	Locals  []*LocalSpec  `json:"locals,omitempty"`
	Confs   []*Conf       `json:"confs"`
	Steps   []*Step       `json:"steps"`
	Power   bool          `json:"power,omitempty"` // track what has not reached the disk
	DiskCap int64         `json:"diskCap,omitempty"`
	Stream  *StreamPlan   `json:"stream,omitempty"`
	Relaxed bool          `json:"relaxed,omitempty"`
	Prompt  bool          `json:"prompt,omitempty"` // nothing delays the server: polls are on time
}

// RemoteSpec is an upstream at the start.
type RemoteSpec struct {
	URL      string                 `json:"url"`
	Kind     string                 `json:"kind"`
	Head     string                 `json:"head,omitempty"`
	User     string                 `json:"user,omitempty"` // svn: who may read it
	Pass     string                 `json:"pass,omitempty"`
	Branches map[string][]*FileSpec `json:"branches"`
}

// LocalSpec is a folder at the start.
type LocalSpec struct {
	Path  string      `json:"path"`
	Files []*FileSpec `json:"files"`
	Link  string      `json:"link,omitempty"` // the folder is a link to this one
}

// RepoConf is an entry of the configuration.
type RepoConf struct {
	Name    string            `json:"name"`
	URL     string            `json:"url"`
	Vcs     string            `json:"vcs"`
	Ref     string            `json:"ref,omitempty"`
	Detect  bool              `json:"detect,omitempty"`
	DotEx   bool              `json:"dotEx,omitempty"`
	NoPoll  bool              `json:"noPoll,omitempty"`
	Push    bool              `json:"push,omitempty"`
	PollMs  int               `json:"pollMs,omitempty"`
	AutoGen []string          `json:"autoGen,omitempty"`
	Watch   bool              `json:"watch,omitempty"`
	Ignored []string          `json:"ignored,omitempty"`
	VcsConf map[string]string `json:"vcsConf,omitempty"` // further settings
	Null    bool              `json:"null,omitempty"`    // the whole entry is null
	RawConf string            `json:"rawConf,omitempty"` // replaces vcs-config altogether ("-": there is none)
	Display string            `json:"display,omitempty"`
	BaseURL string            `json:"baseUrl,omitempty"`
	Anchor  string            `json:"anchor,omitempty"`
	Broken  bool              `json:"broken,omitempty"` // can never be served
}

// Conf is a configuration file.
type Conf struct {
	DbPath  string            `json:"dbpath"`
	Repos   []*RepoConf       `json:"repos"`
	MaxIdx  int               `json:"maxIdx,omitempty"`
	Health  string            `json:"health,omitempty"`
	Limit   int               `json:"limit,omitempty"`
	Title   string            `json:"title,omitempty"`
	Global  map[string]string `json:"global,omitempty"` // vcs -> raw JSON
	Secrets []string          `json:"secrets,omitempty"`
}

func (c *Conf) repo(name string) *RepoConf {
	for _, r := range c.Repos {
		if r.Name == name {
			return r
		}
	}
	return nil
}

func (c *Conf) names() []string {
	var n []string
	for _, r := range c.Repos {
		n = append(n, r.Name)
	}
	return n
}

func (c *Conf) db() string {
	if c.DbPath[0] == '/' {
		return path.Clean(c.DbPath)
	}
	return path.Clean("/etc/hound/" + c.DbPath)
}

// JSON is the file as the server reads it.
func (c *Conf) JSON() []byte {
	m := map[string]interface{}{"dbpath": c.DbPath}
	if c.MaxIdx != 0 {
		m["max-concurrent-indexers"] = c.MaxIdx
	}
	if c.Health != "" {
		m["health-check-uri"] = c.Health
	}
	if c.Limit != 0 {
		m["result-limit"] = c.Limit
	}
	if c.Title != "" {
		m["title"] = c.Title
	}
	if len(c.Global) > 0 {
		g := map[string]json.RawMessage{}
		for k, v := range c.Global {
			g[k] = json.RawMessage(v)
		}
		m["vcs-config"] = g
	}
	rs := map[string]interface{}{}
	for _, r := range c.Repos {
		e := map[string]interface{}{"url": r.URL}
		if r.Vcs != "" {
			e["vcs"] = r.Vcs
		}
		if r.PollMs != 0 {
			e["ms-between-poll"] = r.PollMs
		}
		if r.NoPoll {
			e["enable-poll-updates"] = false
		}
		if r.Push {
			e["enable-push-updates"] = true
		}
		if r.DotEx {
			e["exclude-dot-files"] = true
		}
		if len(r.AutoGen) > 0 {
			e["auto-generated-files"] = r.AutoGen
		}
		if r.Display != "" {
			e["display-name"] = r.Display
		}
		if r.BaseURL != "" || r.Anchor != "" {
			u := map[string]string{}
			if r.BaseURL != "" {
				u["base-url"] = r.BaseURL
			}
			if r.Anchor != "" {
				u["anchor"] = r.Anchor
			}
			e["url-pattern"] = u
		}
		vc := map[string]interface{}{}
		if r.Ref != "" {
			vc["ref"] = r.Ref
		}
		if r.Detect {
			vc["detect-ref"] = true
		}
		if r.Watch {
			vc["watch-changes"] = true
		}
		if len(r.Ignored) > 0 {
			vc["ignored-files"] = r.Ignored
		}
		for k, v := range r.VcsConf {
			vc[k] = v
		}
		if r.RawConf == "-" {
		} else if r.RawConf != "" {
			e["vcs-config"] = json.RawMessage(r.RawConf)
		} else if len(vc) > 0 {
			e["vcs-config"] = vc
		}
		rs[r.Name] = e
		if r.Null {
			rs[r.Name] = nil
		}
	}
	m["repos"] = rs
	b, err := json.MarshalIndent(m, "", "  ")
	if err != nil {
		panic(err)
	}
	return b
}

// Step is one thing done by the director or by an actor.
type Step struct {
	Op     string      `json:"op"`
	D      int64       `json:"d,omitempty"` // milliseconds
	URL    string      `json:"url,omitempty"`
	Branch string      `json:"branch,omitempty"`
	Set    []*FileSpec `json:"set,omitempty"`
	Del    []string    `json:"del,omitempty"`
	N      int         `json:"n,omitempty"`
	Conf   int         `json:"conf,omitempty"`
	Q      *Query      `json:"q,omitempty"`
	Repo   string      `json:"repo,omitempty"`
	Repos  []string    `json:"repos,omitempty"`
	Sub    []*Step     `json:"sub,omitempty"`
	Slow   int64       `json:"slow,omitempty"`
	NoWait bool        `json:"noWait,omitempty"`
	Fault  *FaultRule  `json:"fault,omitempty"`
	Kill   *KillRule   `json:"kill,omitempty"`
	Path   string      `json:"path,omitempty"`
	Method string      `json:"method,omitempty"`
	Body   string      `json:"body,omitempty"`
	Args   []string    `json:"args,omitempty"`
	Net    *NetRule    `json:"net,omitempty"`
	Mode   string      `json:"mode,omitempty"`
	Tty    bool        `json:"tty,omitempty"`    // stdout is a terminal
	OutErr string      `json:"outErr,omitempty"` // what stdout fails with after N bytes
	Cli    *CliConf    `json:"cli,omitempty"`
}

// FaultRule makes matching I/O operations fail.
type FaultRule struct {
	Kinds string  `json:"kinds"`         // space-separated operation kinds
	Path  string  `json:"path"`          // regular expression
	Who   string  `json:"who,omitempty"` // "srv": the server itself, "vcs": its children, "": both
	Err   string  `json:"err,omitempty"` // EIO ENOSPC EACCES ENOENT EMFILE, "" for short transfers
	Short bool    `json:"short,omitempty"`
	P     float64 `json:"p,omitempty"`
	Nth   int     `json:"nth,omitempty"`
	Count int     `json:"count,omitempty"`
	seen  int
	hits  int
}

// KillRule kills the server at a matching operation.
type KillRule struct {
	Kinds string `json:"kinds,omitempty"`
	Path  string `json:"path,omitempty"`
	Nth   int    `json:"nth,omitempty"`
	Part  int    `json:"part,omitempty"`  // 0 before it takes effect, 1 after, 2 half done
	Ops   int64  `json:"ops,omitempty"`   // after so many I/O operations
	Stmts int64  `json:"stmts,omitempty"` // after so many statements
	seen  int
}

// CliConf is what the command-line client is configured with.
type CliConf struct {
	Etc  string `json:"etc,omitempty"`  // the content of /etc/hound.conf
	Home string `json:"home,omitempty"` // the content of ~/.hound
	Flag string `json:"flag,omitempty"` // --host
	// what reading one of the files fails with, and where
	Err   string `json:"err,omitempty"`
	ErrAt string `json:"errAt,omitempty"` // "etc" or "home"
	ErrOp string `json:"errOp,omitempty"` // "open" or "read"
	Dir   string `json:"dir,omitempty"`   // "etc" or "home": a directory is there instead
}

// NetRule says what goes wrong with the command-line client's exchanges.
type NetRule struct {
	Which   string `json:"which"` // search, repos, both
	Kind    string `json:"kind"`
	At      int    `json:"at,omitempty"`
	D       int64  `json:"d,omitempty"`
	Status  int    `json:"status,omitempty"`
	Body    string `json:"body,omitempty"`
	Restart bool   `json:"restart,omitempty"`
}

func (p *Plan) String() string {
	b, err := json.MarshalIndent(p, "", " ")
	if err != nil {
		return fmt.Sprint(err)
	}
	return string(b)
}

// Clone copies the plan.
func (p *Plan) Clone() *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}
