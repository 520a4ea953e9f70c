//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/zzv/vs"
	"go.uber.org/zap/zapcore"
)

// ---- C27 ----

// setting is one configuration setting: its path in the file, its default and other values in file syntax.
type setting struct {
	path string
	def  string
	vals [3]string
	get  func(c *config.Configuration) any
}

func (s setting) env() string {
	return "TRAKX_" + strings.ToUpper(strings.ReplaceAll(s.path, ".", "_"))
}

type cfgT = config.Configuration

// settings as documented in the default configuration file.
var settings = []setting{
	{"loglevel", "info", [3]string{"error", "debug", "warn"}, func(c *cfgT) any { return string(c.LogLevel) }},
	{"expvarinterval", "1s", [3]string{"2s", "0s", "1h0m0s"}, func(c *cfgT) any { return c.ExpvarInterval }},
	{"debug.pprof", "0", [3]string{"6060", "1", "2"}, func(c *cfgT) any { return c.Debug.Pprof }},
	{"announce.base", "30m0s", [3]string{"31m0s", "1s", "0s"}, func(c *cfgT) any { return c.Announce.Base }},
	{"announce.fuzz", "5m0s", [3]string{"6m0s", "0s", "3m0s"}, func(c *cfgT) any { return c.Announce.Fuzz }},
	{"http.mode", "enabled", [3]string{"info", "disabled", "enabled"}, func(c *cfgT) any { return c.HTTP.Mode }},
	{"http.ip", "", [3]string{"127.0.0.1", "::1", "10.0.0.1"}, func(c *cfgT) any { return c.HTTP.IP }},
	{"http.port", "1337", [3]string{"80", "8080", "0"}, func(c *cfgT) any { return c.HTTP.Port }},
	{"http.timeout.read", "3s", [3]string{"4s", "0s", "5s"}, func(c *cfgT) any { return c.HTTP.Timeout.Read }},
	{"http.timeout.write", "10s", [3]string{"11s", "0s", "12s"}, func(c *cfgT) any { return c.HTTP.Timeout.Write }},
	{"http.threads", "512", [3]string{"1", "2", "0"}, func(c *cfgT) any { return c.HTTP.Threads }},
	{"udp.enabled", "true", [3]string{"false", "true", "false"}, func(c *cfgT) any { return c.UDP.Enabled }},
	{"udp.ip", "", [3]string{"127.0.0.2", "::2", "10.0.0.2"}, func(c *cfgT) any { return c.UDP.IP }},
	{"udp.port", "1337", [3]string{"81", "8081", "0"}, func(c *cfgT) any { return c.UDP.Port }},
	{"udp.threads", "512", [3]string{"3", "4", "0"}, func(c *cfgT) any { return c.UDP.Threads }},
	{"udp.conndb.validate", "true", [3]string{"false", "true", "false"}, func(c *cfgT) any { return c.UDP.ConnDB.Validate }},
	{"udp.conndb.size", "0", [3]string{"5", "6", "7"}, func(c *cfgT) any { return c.UDP.ConnDB.Size }},
	{"udp.conndb.trim", "10m0s", [3]string{"11m0s", "1s", "12m0s"}, func(c *cfgT) any { return c.UDP.ConnDB.Trim }},
	{"udp.conndb.expiry", "30m0s", [3]string{"32m0s", "0s", "33m0s"}, func(c *cfgT) any { return c.UDP.ConnDB.Expiry }},
	{"numwant.default", "75", [3]string{"76", "0", "77"}, func(c *cfgT) any { return c.Numwant.Default }},
	{"numwant.limit", "200", [3]string{"201", "0", "202"}, func(c *cfgT) any { return c.Numwant.Limit }},
	{"db.type", "gomap", [3]string{"a", "b", "c"}, func(c *cfgT) any { return c.DB.Type }},
	{"db.backup.frequency", "0s", [3]string{"1m0s", "2m0s", "3m0s"}, func(c *cfgT) any { return c.DB.Backup.Frequency }},
	{"db.backup.type", "none", [3]string{"file", "pg", "x"}, func(c *cfgT) any { return c.DB.Backup.Type }},
	{"db.backup.path", "ENV:DATABASE_URL", [3]string{"/a/b", "c.db", "~/d"}, func(c *cfgT) any { return c.DB.Backup.Path }},
	{"db.trim", "10m0s", [3]string{"13m0s", "0s", "14m0s"}, func(c *cfgT) any { return c.DB.Trim }},
	{"db.expiry", "40m0s", [3]string{"41m0s", "0s", "42m0s"}, func(c *cfgT) any { return c.DB.Expiry }},
	{"path.log", "~/.cache/trakx/trakx.log", [3]string{"/var/log/x", "x.log", "~/y"}, func(c *cfgT) any { return c.Path.Log }},
	{"path.pid", "~/.cache/trakx/trakx.pid", [3]string{"/var/run/x", "x.pid", "~/z"}, func(c *cfgT) any { return c.Path.Pid }},
}

func settingN(path string) int {
	for i, s := range settings {
		if s.path == path {
			return i
		}
	}
	panic(path)
}

type values map[string]string // path -> value

func defaults() values {
	v := values{}
	for _, s := range settings {
		v[s.path] = s.def
	}
	return v
}

func (v values) with(kv ...string) values {
	o := values{}
	for k, x := range v {
		o[k] = x
	}
	for i := 0; i < len(kv); i += 2 {
		o[kv[i]] = kv[i+1]
	}
	return o
}

// yaml writes a configuration file.
func (v values) yaml() string {
	tree := map[string]any{}
	var keys []string
	for k := range v {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		m := tree
		p := strings.Split(k, ".")
		for _, x := range p[:len(p)-1] {
			if m[x] == nil {
				m[x] = map[string]any{}
			}
			m = m[x].(map[string]any)
		}
		m[p[len(p)-1]] = v[k]
	}
	var b strings.Builder
	var walk func(m map[string]any, in string)
	walk = func(m map[string]any, in string) {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			switch x := m[k].(type) {
			case string:
				if strings.HasPrefix(k, "ip") && x == "" {
					fmt.Fprintf(&b, "%s%s: null\n", in, k)
				} else if isNum(x) || x == "true" || x == "false" {
					fmt.Fprintf(&b, "%s%s: %s\n", in, k, x)
				} else {
					fmt.Fprintf(&b, "%s%s: %q\n", in, k, x)
				}
			case map[string]any:
				fmt.Fprintf(&b, "%s%s:\n", in, k)
				walk(x, in+"  ")
			}
		}
	}
	walk(tree, "")
	return b.String()
}

func isNum(s string) bool {
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return s != ""
}

// zero is the value of a setting that is given nowhere.
func (s setting) zero() string { return fmt.Sprint(s.get(new(config.Configuration))) }

// childCfg is what a started process reports.
type childCfg struct {
	Loaded bool
	Vals   values
	Level  string
	Cache  string
}

// childReport runs in a fresh process: the packages have been initialised from its environment.
func childReport() {
	r := childCfg{Vals: values{}, Cache: config.CachePath}
	if c := config.Config; c != nil {
		r.Loaded = c.Loaded()
		for _, s := range settings {
			r.Vals[s.path] = fmt.Sprint(s.get(c))
		}
	}
	for l := zapcore.DebugLevel; l <= zapcore.FatalLevel; l++ {
		if config.Logger.Core().Enabled(l) {
			r.Level = l.String()
			break
		}
	}
	b, _ := json.Marshal(r)
	fmt.Fprintf(os.NewFile(3, "report"), "%s", b)
}

// machine is a scratch home and working directory.
type machine struct {
	dir string
	env values
}

func newMachine() *machine {
	d, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "cfg")
	if err != nil {
		panic(err)
	}
	for _, s := range []string{"home", "cwd"} {
		if err := os.Mkdir(filepath.Join(d, s), 0755); err != nil {
			panic(err)
		}
	}
	return &machine{dir: d, env: values{}}
}

func (m *machine) home() string    { return filepath.Join(m.dir, "home") }
func (m *machine) homeCfg() string { return filepath.Join(m.dir, "home/.config/trakx/trakx.yaml") }
func (m *machine) cwdCfg() string  { return filepath.Join(m.dir, "cwd/trakx.yaml") }
func (m *machine) done()           { os.RemoveAll(m.dir) }

func (m *machine) write(path, data string) {
	if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, []byte(data), 0644); err != nil {
		panic(err)
	}
}

// run starts a process and returns what it made of its configuration.
func (m *machine) run() childCfg {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	c := exec.Command(exe, "child", "config")
	c.Dir = filepath.Join(m.dir, "cwd")
	c.Env = []string{"HOME=" + m.home(), "PATH=/usr/bin:/bin", "GOMAXPROCS=1", "LANG=C.UTF-8"}
	var ks []string
	for k := range m.env {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c.Env = append(c.Env, k+"="+m.env[k])
	}
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	c.ExtraFiles = []*os.File{w}
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	if err := c.Start(); err != nil {
		panic(err)
	}
	w.Close()
	timer := time.AfterFunc(2*time.Minute, func() { c.Process.Kill() })
	b := new(bytes.Buffer)
	b.ReadFrom(r)
	r.Close()
	err = c.Wait()
	timer.Stop()
	var rep childCfg
	if err != nil || json.Unmarshal(b.Bytes(), &rep) != nil {
		// the process ended before it reported: it did not accept its configuration
		return childCfg{}
	}
	return rep
}

// resolved is what becomes of the values after the special rules.
func (m *machine) resolved(v values) values {
	o := v.with()
	o["loglevel"] = strings.ToLower(o["loglevel"])
	o["http.mode"] = strings.ToLower(o["http.mode"])
	if n, ok := strings.CutPrefix(o["db.backup.path"], "ENV:"); ok {
		o["db.backup.path"] = m.env[n]
	}
	for _, k := range []string{"path.log", "path.pid"} {
		if strings.HasPrefix(o[k], "~/") {
			o[k] = m.home() + o[k][1:]
		}
	}
	if p, ok := m.env["PORT"]; ok && p != "" {
		o["http.port"] = p
	}
	return o
}

var levels = map[string]string{"debug": "debug", "info": "info", "warn": "warn", "error": "error", "fatal": "fatal"}

// expect compares a report with the values that should be in force.
func (m *machine) expect(r childCfg, v values, what string) bool {
	w := m.resolved(v)
	if !r.Loaded {
		vs.Fail("%s: the configuration is not loaded", what)
		return false
	}
	for _, s := range settings {
		if r.Vals[s.path] != w[s.path] {
			vs.Fail("%s: %s is %q, expected %q", what, s.path, r.Vals[s.path], w[s.path])
			return false
		}
	}
	l := levels[w["loglevel"]]
	if l == "" {
		l = "warn"
	}
	if r.Level != l {
		vs.Fail("%s: the logger logs from %q, expected %q", what, r.Level, l)
		return false
	}
	if filepath.Clean(r.Cache) != filepath.Join(m.home(), ".cache/trakx") {
		vs.Fail("%s: the cache directory is %q", what, r.Cache)
		return false
	}
	vs.Observe(fmt.Sprint(r.Vals))
	return true
}

// shipped is the default configuration file of the source tree.
func shipped() string {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_SCRATCH"), "src/config/embedded/trakx.yaml"))
	if err != nil {
		panic(err)
	}
	return string(b)
}

// sources: n settings, each taken from every combination of sources.
func sources(n int, pick []int) func() {
	return func() {
		m := newMachine()
		defer m.done()
		var ss []setting
		last := -1
		for i := 0; i < n; i++ {
			k := last + 1 + vs.Choose(len(pick)-n+i-last)
			last = k
			ss = append(ss, settings[pick[k]])
		}
		home, cwd := defaults(), defaults()
		useHome, useCwd := vs.Choose(2) == 1, vs.Choose(3)
		what := ""
		for _, s := range ss {
			if useHome {
				home[s.path] = s.vals[2]
			}
			switch useCwd {
			case 1:
				cwd[s.path] = s.vals[1]
			}
		}
		if useCwd == 2 { // a file with nothing but these settings
			cwd = values{}
			for _, s := range ss {
				cwd[s.path] = s.vals[1]
			}
		}
		if useHome {
			m.write(m.homeCfg(), home.yaml())
			what += "file in the home directory, "
		}
		eff := home
		if useCwd > 0 {
			m.write(m.cwdCfg(), cwd.yaml())
			what += []string{"", "file", "small file"}[useCwd] + " in the working directory, "
			eff = values{}
			for _, s := range settings {
				eff[s.path] = s.zero()
			}
			eff = eff.with(flat(cwd)...)
		}
		eff = eff.with()
		for _, s := range ss {
			if vs.Choose(2) == 1 {
				m.env[s.env()] = s.vals[0]
				eff[s.path] = s.vals[0]
				what += s.env() + "=" + s.vals[0] + ", "
			} else {
				what += s.path + ", "
			}
		}
		r := m.run()
		if m.expect(r, eff, what) {
			m.untouched(home, useHome, cwd, useCwd > 0, what)
		}
		Note("%s", what)
	}
}

func flat(v values) []string {
	var o []string
	for k, x := range v {
		o = append(o, k, x)
	}
	return o
}

// untouched: the files are as they were; a missing one in the home directory was generated.
func (m *machine) untouched(home values, useHome bool, cwd values, useCwd bool, what string) {
	want := home.yaml()
	if !useHome {
		want = shipped()
	}
	if b, err := os.ReadFile(m.homeCfg()); err != nil || string(b) != want {
		vs.Fail("%s: the file in the home directory holds %q (%v), expected %q", what, b, err, want)
		return
	}
	b, err := os.ReadFile(m.cwdCfg())
	if useCwd && (err != nil || string(b) != cwd.yaml()) {
		vs.Fail("%s: the file in the working directory holds %q (%v), expected %q", what, b, err, cwd.yaml())
	} else if !useCwd && err == nil {
		vs.Fail("%s: a configuration was written to the working directory: %q", what, b)
	}
}

// special: values with rules of their own.
func special() {
	m := newMachine()
	defer m.done()
	type kase struct {
		path string
		val  string
		env  []string // further variables
		bad  bool
	}
	cases := []kase{
		{"loglevel", "DEBUG", nil, false}, {"loglevel", "Info", nil, false}, {"loglevel", "wArN", nil, false}, {"loglevel", "ERROR", nil, false}, {"loglevel", "Fatal", nil, false}, {"loglevel", "loud", nil, false}, {"loglevel", "", nil, false},
		{"http.mode", "Enabled", nil, false}, {"http.mode", "INFO", nil, false}, {"http.mode", "Disabled", nil, false},
		{"http.port", "81", []string{"PORT", "9000"}, false}, {"http.port", "81", []string{"PORT", ""}, false}, {"http.port", "81", []string{"PORT", "x"}, true}, {"http.port", "81", []string{"PORT", "90 "}, true},
		{"udp.port", "82", []string{"PORT", "9000"}, false},
		{"db.backup.path", "ENV:SOME_URL", []string{"SOME_URL", "postgres://x"}, false}, {"db.backup.path", "ENV:SOME_URL", nil, false}, {"db.backup.path", "ENV:", nil, false},
		{"db.backup.path", "ENV:DATABASE_URL", []string{"DATABASE_URL", "ENV:OTHER", "OTHER", "z"}, false}, {"db.backup.path", "env:A", []string{"A", "b"}, false}, {"db.backup.path", "xENV:A", []string{"A", "b"}, false}, {"db.backup.path", "ENV:A", []string{"A", "~/b"}, false},
		{"path.log", "~/a/b.log", nil, false}, {"path.pid", "~/a/b.pid", nil, false}, {"path.log", "a.log", nil, false}, {"path.pid", "/tmp/zz/a.pid", nil, false},
		{"http.ip", "ENV:A", []string{"A", "b"}, false},
		{"http.port", "eighty", nil, true}, {"http.threads", "1.5", nil, true}, {"expvarinterval", "soon", nil, true}, {"udp.enabled", "perhaps", nil, true}, {"numwant.limit", "-1", nil, true}, {"udp.conndb.size", "-5", nil, true}, {"db.expiry", "1 minute", nil, true},
	}
	k := cases[vs.Choose(len(cases))]
	for i := 0; i < len(k.env); i += 2 {
		m.env[k.env[i]] = k.env[i+1]
	}
	what := fmt.Sprintf("%s %q, %q", k.path, k.val, k.env)
	eff := defaults().with(k.path, k.val)
	s := settings[settingN(k.path)]
	if vs.Choose(2) == 0 {
		m.env[s.env()] = k.val
		what += " from the environment"
	} else {
		m.write(m.homeCfg(), eff.yaml())
		what += " from the file"
	}
	r := m.run()
	if k.bad {
		if r.Loaded {
			vs.Fail("%s: accepted, %s is %q", what, s.path, r.Vals[s.path])
		}
	} else {
		m.expect(r, eff, what)
	}
	Note("%s", what)
}

// starts: a history of starts and changes to the configuration directory.
func starts(depth int) func() {
	return func() {
		m := newMachine()
		defer m.done()
		hist := "starts"
		var file, local *string // the user's files, nil for none
		vals, lvals := values{}, values{}
		str := func(s string) *string { return &s }
		for i := 0; i < depth; i++ {
			switch vs.Choose(9) {
			case 0:
				hist += ", start"
			case 1:
				hist += ", file changed"
				vals = defaults().with("http.port", fmt.Sprint(7000+i))
				file = str(vals.yaml())
			case 2:
				hist += ", file broken"
				vals = nil
				file = str("http: [\n")
			case 3:
				hist += ", file emptied"
				vals = nil
				file = str("")
			case 4:
				hist += ", file removed"
				file = nil
			case 5:
				hist += ", directory removed"
				file = nil
				os.RemoveAll(filepath.Join(m.home(), ".config"))
			case 6:
				hist += ", local file"
				lvals = defaults().with("http.port", fmt.Sprint(6000+i))
				local = str(lvals.yaml())
			case 7:
				hist += ", local file removed"
				local = nil
			case 8:
				hist += ", cache removed"
				os.RemoveAll(filepath.Join(m.home(), ".cache"))
			}
			if file != nil {
				m.write(m.homeCfg(), *file)
			} else {
				os.Remove(m.homeCfg())
			}
			if local != nil {
				m.write(m.cwdCfg(), *local)
			} else {
				os.Remove(m.cwdCfg())
			}
			r := m.run()
			if file == nil {
				file = str(shipped())
				vals = defaults()
			}
			if b, err := os.ReadFile(m.homeCfg()); err != nil || string(b) != *file {
				vs.Fail("%s: the file in the home directory holds %q (%v), expected %q", hist, b, err, *file)
				return
			}
			b, err := os.ReadFile(m.cwdCfg())
			if local != nil && (err != nil || string(b) != *local) || local == nil && err == nil {
				vs.Fail("%s: the file in the working directory holds %q (%v)", hist, b, err)
				return
			}
			eff := vals
			if local != nil {
				eff = lvals
			}
			if eff == nil {
				if r.Loaded {
					vs.Fail("%s: a broken file is accepted", hist)
					return
				}
			} else if !m.expect(r, eff, hist) {
				return
			}
			if st, err := os.Stat(filepath.Join(m.home(), ".cache/trakx")); err != nil || !st.IsDir() {
				vs.Fail("%s: there is no cache directory", hist)
				return
			}
		}
		Note("%s", hist)
	}
}

func init() {
	register(&Check{ID: "C27", Secs: [2]int{60, 600}, Configs: func(d bool) []Config {
		var all []int
		for i := range settings {
			all = append(all, i)
		}
		b := vs.Budget{MaxSteps: 1000, FreeSw: -1}
		n := 3
		if d {
			n = 5
		}
		return []Config{
			{Name: "one setting", Run: sources(1, all), B: b, Bound: "29 settings, environment x 3 states of the file in the working directory x 2 of the one in the home directory"},
			{Name: "special values", Run: special, B: b, Bound: "34 values, from the environment or the file"},
			{Name: "histories of starts", Run: starts(n), B: b, Bound: fmt.Sprintf("all sequences of %d of 9 changes, each followed by a start", n)},
			{Name: "two settings", Run: sources(2, all), B: b, Bound: "all pairs of settings, every combination of sources"},
		}
	}})
}
