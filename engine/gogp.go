package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// Instances of the templates of /repo (.gp files), made the way the gogp tool
// makes them, so that harnesses can be run on what the templates give and not
// on the instances in the repository.
//
// In a harness
//
//	// templates: DIR ...
//
// replaces the instances in these directories by what their templates give
// now, and
//
//	// instance: TEMPLATE DIR KEY=VALUE ... FILE.gpg:SECTION ...
//
// makes a further one in DIR (@FILE: a file of the harnesses, for what such a
// package needs besides).

type gpConf map[string]string

func (c gpConf) defined(k string) bool {
	v, ok := c[k]
	return ok && v != "" && v != "false" && v != "0"
}

func readGpg(name string) (map[string]gpConf, error) {
	b, err := os.ReadFile(name)
	if err != nil {
		return nil, err
	}
	r := map[string]gpConf{}
	var cur gpConf
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		switch {
		case l == "" || l[0] == ';' || l[0] == '#':
		case l[0] == '[' && l[len(l)-1] == ']':
			cur = gpConf{}
			r[strings.TrimPrefix(l[1:len(l)-1], "GOGP_IGNORE_")] = cur
		default:
			if k, v, ok := strings.Cut(l, "="); ok && cur != nil {
				cur[strings.TrimSpace(k)] = strings.TrimSpace(v)
			}
		}
	}
	return r, nil
}

var (
	gpDirective = regexp.MustCompile(`^\s*(?:///*\s*)+#GOGP_(\w+)(?:\(([^)]*(?:\([^)]*\))?[^)]*)\)|\s+(\w+))?`)
	gpCfg       = regexp.MustCompile(`#GOGP_GPGCFG\((\w+)\)`)
	gpName      = regexp.MustCompile(`<([A-Z][A-Z_0-9a-z]*)>`)
)

// expand makes an instance of a template. once remembers the blocks that
// appear once in a package.
func expandGp(text string, c gpConf, once map[string]bool) (string, error) {
	conf := gpConf{}
	for k, v := range c {
		conf[k] = v
	}
	if _, ok := conf["PACKAGE"]; ok && !strings.HasPrefix(conf["PACKAGE"], "package ") {
		conf["PACKAGE"] = "package " + conf["PACKAGE"]
	}
	var out []string
	type cond struct{ on, was bool }
	var conds []cond
	ignore, onceBlock, skipOnce := false, "", false
	replace := [][2]string{}
	emit := func() bool {
		for _, c := range conds {
			if !c.on {
				return false
			}
		}
		return !ignore && !skipOnce
	}
	lines := strings.Split(text, "\n")
	for i, l := range lines {
		if m := gpDirective.FindStringSubmatch(l); m != nil && strings.HasPrefix(strings.TrimLeft(strings.TrimSpace(l), "/ \t"), "#GOGP_") {
			arg := m[2] + m[3]
			switch m[1] {
			case "IGNORE_BEGIN":
				ignore = true
			case "IGNORE_END":
				ignore = false
			case "IFDEF":
				conds = append(conds, cond{conf.defined(arg), true})
			case "ELSE":
				if len(conds) == 0 {
					return "", fmt.Errorf("line %d: ELSE without IFDEF", i+1)
				}
				conds[len(conds)-1].on = !conds[len(conds)-1].on
			case "ENDIF", "END_IF":
				if len(conds) == 0 {
					return "", fmt.Errorf("line %d: ENDIF without IFDEF", i+1)
				}
				conds = conds[:len(conds)-1]
			case "ONCE":
				for _, n := range lines[i+1:] {
					if strings.Contains(n, "#GOGP_END_ONCE") {
						break
					}
					onceBlock += n + "\n"
				}
				if emit() {
					skipOnce = once[onceBlock]
					once[onceBlock] = true
				}
				onceBlock = ""
			case "END_ONCE":
				skipOnce = false
			case "REPLACE":
				if a, b, ok := strings.Cut(arg, ","); ok && emit() {
					replace = append(replace, [2]string{strings.TrimSpace(a), strings.TrimSpace(b)})
				}
			case "REQUIRE", "FILE_BEGIN", "FILE_END", "COMMENT":
			default:
				return "", fmt.Errorf("line %d: unknown directive %s", i+1, m[1])
			}
			continue
		}
		if !emit() {
			continue
		}
		for _, r := range replace {
			l = strings.ReplaceAll(l, r[0], r[1])
		}
		l = gpCfg.ReplaceAllStringFunc(l, func(s string) string { return conf[gpCfg.FindStringSubmatch(s)[1]] })
		l = gpName.ReplaceAllStringFunc(l, func(s string) string {
			if v, ok := conf[s[1:len(s)-1]]; ok {
				return v
			}
			return s
		})
		out = append(out, l)
	}
	if len(conds) > 0 {
		return "", fmt.Errorf("IFDEF without ENDIF")
	}
	return strings.Join(out, "\n"), nil
}

// templatesDiffer: the templates whose two forms, the .gp file and the fake Go
// file (.gp.go) it is made from, do not say the same. useFake chooses the
// second.
var (
	templatesDiffer []string
	useFake         bool
)

var gpWhite = regexp.MustCompile(`\s+`)

// normGp: the lines of a template that matter.
func normGp(t string) string {
	var out []string
	ignore := false
	for _, l := range strings.Split(t, "\n") {
		l = strings.TrimSpace(l)
		if m := gpDirective.FindStringSubmatch(l); m != nil {
			switch m[1] {
			case "IGNORE_BEGIN":
				ignore = true
				continue
			case "IGNORE_END":
				ignore = false
				continue
			case "REQUIRE", "FILE_BEGIN", "FILE_END", "COMMENT":
				continue
			}
		} else if strings.HasPrefix(l, "//") {
			continue
		}
		if l != "" && !ignore {
			out = append(out, gpWhite.ReplaceAllString(l, " "))
		}
	}
	return strings.Join(out, "\n")
}

// reverseGp makes the text of a template from its fake Go file, "" if it
// cannot.
func reverseGp(gp string) string {
	b, err := os.ReadFile(gp + ".go")
	if err != nil {
		return ""
	}
	_, t, ok := strings.Cut(string(b), "#GOGP_FILE_BEGIN")
	if !ok {
		return ""
	}
	if _, t, ok = strings.Cut(t, "\n"); !ok {
		return ""
	}
	t, _, _ = strings.Cut(t, "//#GOGP_FILE_END")
	gpgs, _ := filepath.Glob(filepath.Join(filepath.Dir(gp), "*.gpg"))
	name := strings.TrimSuffix(filepath.Base(gp), ".gp")
	for _, g := range gpgs {
		secs, err := readGpg(g)
		if err != nil {
			continue
		}
		conf := secs["GOGP_REVERSE_"+name]
		if conf == nil {
			continue
		}
		var keys []string
		for k := range conf {
			if k != "PACKAGE" && !strings.HasPrefix(k, "GOGP_") && conf[k] != "" {
				keys = append(keys, k)
			}
		}
		sort.Slice(keys, func(i, j int) bool {
			return len(conf[keys[i]]) > len(conf[keys[j]]) || len(conf[keys[i]]) == len(conf[keys[j]]) && keys[i] < keys[j]
		})
		for _, k := range keys {
			t = strings.ReplaceAll(t, conf[k], "<"+k+">")
		}
		return "<PACKAGE>\n" + t
	}
	return ""
}

func readTemplate(gp string) (string, error) {
	b, err := os.ReadFile(gp)
	if err != nil {
		return "", err
	}
	t := string(b)
	if r := reverseGp(gp); r != "" && normGp(r) != normGp(t) {
		templatesDiffer = append(templatesDiffer, filepath.Base(gp))
		if useFake {
			return r, nil
		}
	}
	return t, nil
}

var gpHeader = regexp.MustCompile(`(?s)Generate from:\s*//\s*\[([^\]\s]+\.gp)\]\s*//\s*\[([^\]\s]+\.gpg)\]\s*\[([^\]]+)\]`)

// instantiate does what the directives of a harness ask for in the copy dst
// of repo.
func instantiate(verifDir, repo, dst string, dirs []string, instances [][]string) error {
	path := func(p string) string { return filepath.Join(repo, strings.TrimPrefix(p, gxPath+"/")) }
	for _, d := range dirs {
		once := map[string]bool{}
		fs, _ := filepath.Glob(filepath.Join(dst, d, "*.go"))
		n := 0
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			m := gpHeader.FindStringSubmatch(string(b))
			if m == nil {
				continue
			}
			t, err := readTemplate(path(m[1]))
			if err != nil {
				return err
			}
			g, err := readGpg(path(m[2]))
			if err != nil {
				return err
			}
			conf := g[m[3]]
			if conf == nil {
				return fmt.Errorf("%s: no section %s in %s", f, m[3], m[2])
			}
			s, err := expandGp(t, conf, once)
			if err != nil {
				return fmt.Errorf("%s: %v", m[1], err)
			}
			if err := os.WriteFile(f, []byte(s), 0o644); err != nil {
				return err
			}
			n++
		}
		if n == 0 {
			return fmt.Errorf("no instances of templates in %s", d)
		}
	}
	once := map[string]map[string]bool{}
	for i, in := range instances {
		if len(in) < 2 {
			return fmt.Errorf("instance: template and directory expected")
		}
		from := filepath.Join(repo, in[0])
		if strings.HasPrefix(in[0], "@") {
			from = filepath.Join(verifDir, "harness", in[0][1:])
		}
		t, err := readTemplate(from)
		if err != nil {
			return err
		}
		conf := gpConf{"PACKAGE": filepath.Base(in[1])}
		for _, kv := range in[2:] {
			if f, sec, ok := strings.Cut(kv, ".gpg:"); ok {
				g, err := readGpg(filepath.Join(repo, f+".gpg"))
				if err != nil {
					return err
				}
				if g[sec] == nil {
					return fmt.Errorf("%s: no section %s in %s.gpg", in[0], sec, f)
				}
				for k, v := range g[sec] {
					conf[k] = v
				}
				continue
			}
			k, v, _ := strings.Cut(kv, "=")
			conf[k] = v
		}
		if once[in[1]] == nil {
			once[in[1]] = map[string]bool{}
		}
		s, err := expandGp(t, conf, once[in[1]])
		if err != nil {
			return fmt.Errorf("%s: %v", in[0], err)
		}
		if err := os.MkdirAll(filepath.Join(dst, in[1]), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dst, in[1], fmt.Sprintf("i%d_%s.go", i, strings.Split(filepath.Base(in[0]), ".")[0])), []byte(s), 0o644); err != nil {
			return err
		}
	}
	return nil
}
