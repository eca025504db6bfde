// vconf checks the precedence of configuration sources: the real config
// package resolves settings in child processes whose sources are generated.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/mozilla/crlite/go/config"

	"vharness/lib/mon"
	"vharness/lib/proc"
	"vharness/lib/redisx"
)

type setting struct {
	name, field, kind, def string
}

var settings = []setting{
	{"batchSize", "BatchSize", "uint", "4096"},
	{"remoteSettingsURL", "RemoteSettingsURL", "string", ""},
	{"ctLogMetadata", "CTLogMetadata", "string", ""},
	{"numThreads", "NumThreads", "int", "1"},
	{"logExpiredEntries", "LogExpiredEntries", "bool", "false"},
	{"runForever", "RunForever", "bool", "false"},
	{"pollingDelay", "PollingDelay", "uint", "600"},
	{"remoteSettingsUpdateInterval", "RemoteSettingsUpdateInterval", "uint", "3600"},
	{"savePeriod", "SavePeriod", "string", "15m"},
	{"certPath", "CertPath", "string", ""},
	{"googleProjectId", "GoogleProjectId", "string", ""},
	{"redisHost", "RedisHost", "string", ""},
	{"redisTimeout", "RedisTimeout", "string", "5s"},
	{"statsRefreshPeriod", "StatsRefreshPeriod", "string", "10m"},
	{"statsdHost", "StatsDHost", "string", ""},
	{"statsdPort", "StatsDPort", "int", "8125"},
	{"healthAddr", "HealthAddr", "string", ":8080"},
}

// child prints what the real code resolves.
func child() {
	c := config.NewCTConfig()
	c.Init()
	v := reflect.ValueOf(c).Elem()
	out := map[string]string{}
	for _, s := range settings {
		f := v.FieldByName(s.field)
		if !f.IsValid() || f.Kind() != reflect.Pointer || f.IsNil() {
			out[s.name] = "<no field>"
			continue
		}
		out[s.name] = fmt.Sprint(f.Elem().Interface())
	}
	js, _ := json.Marshal(out)
	os.Stdout.Write(js)
}

func main() {
	if os.Getenv("VH_CONF_CHILD") != "" {
		os.Unsetenv("VH_CONF_CHILD")
		child()
		return
	}
	if len(os.Args) < 2 || os.Args[1] != "C18" {
		fmt.Fprintln(os.Stderr, "usage: vconf C18")
		os.Exit(2)
	}
	mon.Supervise(os.Args[1])
	run := mon.New(os.Args[1])
	c18(run)
	os.Exit(run.Finish())
}

func pick[T any](r *rand.Rand, l ...T) T { return l[r.Intn(len(l))] }

var serial int

// good makes a value for a setting that differs from all others of the case.
func good(r *rand.Rand, s setting, env bool) string {
	serial++
	switch s.kind {
	case "uint":
		return strconv.FormatUint(pick(r, 0, uint64(serial), uint64(100000+serial), uint64(1)<<40+uint64(serial), ^uint64(0)-uint64(serial)), 10)
	case "int":
		n := pick(r, 0, serial, 1000+serial, 2147483647-serial, -serial, -2147483648+serial)
		if n < 0 {
			return strconv.Itoa(n)
		}
		return strconv.Itoa(n)
	case "bool":
		return pick(r, "true", "false", "1", "0", "t", "f", "TRUE", "FALSE", "True", "False")
	}
	v := fmt.Sprintf("%s-%d", pick(r, "host.example:6379", "/var/data/x", "[{\"url\":\"https://ct.example/2026/\",\"key\":\"AbC+/w==\",\"crlite_enrolled\":true}]", "10s", "https://s.example/v1/", "x"), serial)
	if env { // taken verbatim
		v += pick(r, "", " ", " # not a comment", ";", "\"", "%(redisHost)s", "\\", "\n", "ünï", "$HOME", "=")
	}
	return v
}

func bad(r *rand.Rand, s setting) (string, bool) {
	switch s.kind {
	case "uint":
		return pick(r, "abc", "-5", "1.5", "12x", "99999999999999999999999", "1e3", "--", "true", " 7 7"), true
	case "int":
		return pick(r, "abc", "1.5", "12x", "99999999999999999999999", "1e3", "--", "false", " 7 7"), true
	case "bool":
		return pick(r, "maybe", "2", "truee", "nope", "-1", "10m", "fa lse"), true
	}
	return "", false
}

func canon(s setting, v string) string {
	if s.kind == "bool" {
		b, _ := strconv.ParseBool(v)
		return fmt.Sprint(b)
	}
	if s.kind != "string" && len(v) > 2 {
		return strings.TrimPrefix(v, "00")
	}
	return v
}

func c18(run *mon.Run) {
	run.Rule = "one evaluation per setting of a case; distinct ones differ in the setting and in the state of its command line, environment and file"
	run.Assume = []string{"values whose meaning differs between the parsers of the environment and of the file (octal and hexadecimal numbers, yes/on, quotes and comment signs in the file) are not used"}
	// may we have a home directory of our own?
	home := filepath.Join(run.Scratch, "home")
	os.MkdirAll(home, 0755)
	os.Chmod(home, 0777)
	for d := home; len(d) > 4; d = filepath.Dir(d) {
		if fi, err := os.Stat(d); err == nil && fi.Mode()&0005 != 0005 && strings.Contains(d, "vh-") {
			os.Chmod(d, 0755)
		}
	}
	self := filepath.Join(run.Scratch, "vconf")
	b, err := os.ReadFile(os.Args[0])
	if err != nil {
		mon.Infra("%v", err)
	}
	os.WriteFile(self, b, 0755)
	resolve := func(args, env []string, uid int) (map[string]string, string, int) {
		c := exec.Command(self, args...)
		c.Env = append(env, "VH_CONF_CHILD=1")
		c.Dir = home
		if uid > 0 {
			c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uint32(uid), Gid: uint32(uid)}}
		}
		var eb strings.Builder
		c.Stderr = &eb
		out, err := c.Output()
		if err != nil {
			if c.ProcessState == nil {
				return nil, err.Error(), -1
			}
			return nil, eb.String(), c.ProcessState.ExitCode()
		}
		m := map[string]string{}
		if err := json.Unmarshal(out, &m); err != nil {
			return nil, string(out), -2
		}
		return m, eb.String(), 0
	}
	const uid = 54321 // in no password file, so that $HOME is the home directory
	os.WriteFile(filepath.Join(home, ".ct-fetch.ini"), []byte("savePeriod = probe\n"), 0644)
	m, _, _ := resolve(nil, []string{"HOME=" + home, "USER=vh", "TMPDIR=" + home}, uid)
	homes := m != nil && m["savePeriod"] == "probe"
	os.Remove(filepath.Join(home, ".ct-fetch.ini"))
	if !homes {
		run.Count("no home directory of our own: ~/.ct-fetch.ini not exercised", 1)
	}
	n := run.Pick(2000, 40000)
	for i := 0; i < n; i++ {
		r := run.Rand("case", i)
		serial = 1 + r.Intn(50)
		env := []string{"HOME=/nonexistent", "PATH=/usr/bin:/bin", "TMPDIR=" + home}
		var args, main, other []string
		want, how, wide := map[string]string{}, map[string]string{}, map[string]string{}
		density := r.Intn(4)
		mode := pick(r, "flag", "flag", "flag", "flag=", "none", "missing", "home", "home and flag")
		if !homes && strings.HasPrefix(mode, "home") {
			mode = "flag"
		}
		reads := mode != "none" && mode != "missing"
		for _, s := range settings {
			st := func() string {
				if density == 0 && r.Intn(3) > 0 {
					return "absent"
				}
				return pick(r, "absent", "good", "good", "bad", "empty")
			}
			w, h := s.def, "default"
			fs := st()
			switch fs {
			case "good":
				v := good(r, s, false)
				main = append(main, s.name+pick(r, " = ", "=", " : ", "= ")+v)
				if reads {
					w, h = canon(s, v), "file"
				}
			case "bad":
				if v, ok := bad(r, s); ok {
					main = append(main, s.name+" = "+v)
				}
			case "empty":
				main = append(main, s.name+" =")
			}
			if r.Intn(5) == 0 { // not in the default section, or not this name
				switch r.Intn(3) {
				case 0:
					other = append(other, s.name+" = "+good(r, s, false))
				case 1:
					main = append(main, "# "+s.name+" = "+good(r, s, false))
				case 2:
					main = append(main, "x"+s.name+" = "+good(r, s, false))
				}
			}
			es := st()
			switch es {
			case "good":
				v := good(r, s, true)
				if (s.kind == "int" || s.kind == "uint") && v[0] != '-' && r.Intn(6) == 0 {
					v = "00" + v // still decimal
				}
				env = append(env, s.name+"="+v)
				w, h = canon(s, v), "environment"
			case "bad":
				if s.kind == "int" && r.Intn(4) == 0 {
					// more than 32 bits: ignored or taken as it is, not mangled
					v := strconv.FormatInt(pick(r, int64(1), -1)*(1<<31+r.Int63n(1<<uint(1+r.Intn(40)))+1), 10)
					env = append(env, s.name+"="+v)
					wide[s.name] = v
					run.Count("wide numbers", 1)
				} else if v, ok := bad(r, s); ok {
					env = append(env, s.name+"="+v)
				}
			case "empty":
				env = append(env, s.name+"=")
				if s.kind == "string" {
					w, h = "", "empty environment"
				}
			}
			if r.Intn(6) == 0 {
				env = append(env, strings.ToUpper(s.name)+"="+good(r, s, true), s.name+"_="+good(r, s, true))
			}
			if s.name == "batchSize" && r.Intn(3) == 0 {
				v := good(r, s, true)
				for v == "0" { // stands for "not given"
					v = good(r, s, true)
				}
				args = append(args, pick(r, "-", "--")+"batchSize="+v)
				w, h = v, "command line"
			}
			want[s.name] = w
			how[s.name] = h + "/env " + es + "/file " + fs + "/" + mode
		}
		r.Shuffle(len(main), func(i, j int) { main[i], main[j] = main[j], main[i] })
		sep := pick(r, "\n", "\n", "\r\n")
		text := pick(r, "", "; comment"+sep, "\ufeff") + strings.Join(main, sep) + sep
		if len(other) > 0 {
			text += "[other]" + sep + strings.Join(other, sep) + sep
		}
		path := filepath.Join(run.Scratch, fmt.Sprintf("c%d.ini", i%16))
		u := 0
		os.WriteFile(path, []byte(text), 0644)
		def := filepath.Join(home, ".ct-fetch.ini")
		os.Remove(def)
		switch mode {
		case "flag":
			args = append(args, "-config", path)
		case "flag=":
			args = append(args, "--config="+path)
		case "missing":
			args = append(args, "-config", path+".missing")
		case "home":
			os.WriteFile(def, []byte(text), 0644)
			env[0], u = "HOME="+home, uid
			env = append(env, "USER=vh")
		case "home and flag":
			os.WriteFile(def, []byte("savePeriod = home\nstatsRefreshPeriod = home\nnumThreads = 77\n"), 0644)
			env[0], u = "HOME="+home, uid
			env = append(env, "USER=vh")
			args = append(args, "-config", path)
		}
		got, msg, code := resolve(args, env, u)
		det := map[string]any{"args": args, "env": env, "file": text, "got": got, "mode": mode}
		if got == nil {
			run.Violation("init-failed", fmt.Sprintf("case %d: resolving the settings ended with %d: %s", i, code, msg), det)
			continue
		}
		for _, s := range settings {
			run.Eval(s.name + "/" + how[s.name])
			if got[s.name] != want[s.name] && (wide[s.name] == "" || got[s.name] != wide[s.name]) {
				run.Violation("setting "+s.name, fmt.Sprintf("case %d: %s is %q, but should be %q (from %s)", i, s.name, got[s.name], want[s.name], how[s.name]), det)
			}
		}
		run.Count("files by "+mode, 1)
		if i < 2 {
			run.Sample("case", det)
		}
	}
	programs(run)
}

// programs runs real programs whose settings come from different sources.
func programs(run *mon.Run) {
	bin := os.Getenv("VH_BIN")
	rs, err := redisx.Start(run.Scratch)
	if err != nil {
		mon.Infra("redis: %v", err)
	}
	for i := 0; i < run.Pick(24, 120); i++ {
		r := run.Rand("prog", i)
		d, err := os.MkdirTemp(run.Scratch, "p")
		if err != nil {
			mon.Infra("%v", err)
		}
		store, wrong := filepath.Join(d, "store"), filepath.Join(d, "wrong")
		env := append(proc.BaseEnv(d), "TMPDIR="+d)
		var file []string
		put := func(name, v, no string) {
			switch r.Intn(3) {
			case 0: // environment over file
				env = append(env, name+"="+v)
				file = append(file, name+" = "+no)
			case 1:
				file = append(file, name+" = "+v)
			case 2:
				env = append(env, name+"="+v)
			}
		}
		put("redisHost", rs.Addr, "127.0.0.1:1")
		put("certPath", store, wrong)
		put("redisTimeout", "7s", "soon")
		put("statsRefreshPeriod", "3m", "often")
		ini := filepath.Join(d, "c.ini")
		os.WriteFile(ini, []byte(strings.Join(file, "\n")+"\n"), 0644)
		rs.Flush()
		res := proc.Run(filepath.Join(bin, "commit"), []string{"-logtostderr", "-config", ini}, env, d, 60*time.Second)
		det := map[string]any{"env": env, "file": file, "stderr": res.Stderr}
		if res.Code != 0 {
			run.Violation("program", fmt.Sprintf("program case %d: commit ended with %v", i, res), det)
		} else if _, err := os.Stat(filepath.Join(store, "ct-logs.json")); err != nil {
			run.Violation("program", fmt.Sprintf("program case %d: nothing in the configured certPath: %v", i, err), det)
		}
		if _, err := os.Stat(wrong); err == nil {
			run.Violation("program", fmt.Sprintf("program case %d: the overridden certPath was used", i), det)
		}
		run.Eval(fmt.Sprintf("program/%v/%v", env[4:], file))
		run.Count("program runs", 1)
		os.RemoveAll(d)
	}
}
