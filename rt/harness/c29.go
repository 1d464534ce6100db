//go:build go1.21 && !zzinst

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/zz_verif/env"
)

func init() { checks["C29"] = c29 }

// place is where an index of the check is, with what it holds.
type place struct {
	root string // absolute
	i    int
	f    Cf
	docs []rDoc
}

// mkPlace makes the ith index, with a document of its own and one that all have.
func (c *C) mkPlace(root string, i int) *place {
	must(env.MkdirAll(filepath.Dir(root)))
	p := &place{root: root, i: i, f: cf(1<<uint(i%3), 1+i%2, 3+i, 1, 1)}
	var own []rDoc
	for k, t := range []string{words(0, 1, 2+i), words(9, 2+i, 0, 1)} {
		path := env.P(fmt.Sprintf("t/p%d-%d", i, k))
		must(env.MkdirAll(env.P("t")))
		must(env.WriteFile(path, []byte(t)))
		own = append(own, rDoc{path, 0, uint32(len(t)), t})
	}
	p.docs = own
	x, e := dupi.IndexerFromConfig(p.f.config(root))
	if e != nil {
		c.Fail("creating %s: %v", root, e)
	}
	for _, d := range own {
		if e := x.Add(&dupi.Doc{Path: d.path, Start: d.start, End: d.end, Dat: []byte(d.text)}); e != nil {
			c.Fail("adding: %v", e)
		}
	}
	if e := x.Close(); e != nil {
		c.Fail("closing: %v", e)
	}
	return p
}

func (p *place) ref() *Ref {
	r := newRef(p.f)
	for _, d := range p.docs {
		r.add(d, "")
	}
	return r
}

// contents of everything but lock files, which hold nothing.
func noLocks() map[string]string {
	m := env.Snapshot(env.W())
	for k := range m {
		if strings.HasSuffix(k, ".lock") {
			delete(m, k)
		}
	}
	return m
}

func changed(a, b map[string]string, except func(string) bool) []string {
	var l []string
	for k, v := range a {
		if w, ok := b[k]; (!ok || v != w) && !except(k) {
			l = append(l, k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok && !except(k) {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return l
}

var c29verbs = []string{"inspect", "extract", "blot", "unblot", "like", "index -a", "index"}

func c29(t *T) {
	if canRead0() && os.Getenv("VERIF_ROOT") == "" {
		t.incomplete("running as root")
	}
	type sel struct {
		args []string
		name string // "" for none
	}
	sels := []sel{{nil, ""}, {[]string{"-r", ""}, ""}, {[]string{"-r", "x"}, "x"}, {[]string{"-r=x"}, "x"}, {[]string{"--r", "sub/../x/"}, "x"}, {[]string{"-r", "ABS/x"}, "x"},
		{[]string{"-r", "a b"}, "a b"}, {[]string{"-r=-x"}, "-x"}, {[]string{"-r", "é\n"}, "é\n"}, {[]string{"-r", "x", "-r", "z"}, "z"}}
	for _, v := range []string{"index", "extract", "blot", "unblot", "inspect", "like"} {
		sels = append(sels, sel{[]string{"-r", v}, v})
	}
	envs := []string{"-", "", "y", "ABS/y", "extract", "sub/deep/y"}
	homes := []string{"h", "", "extract"}
	one := func(s sel, en, h string, exist int) {
		t.Case(fmt.Sprintf("%q DUPIROOT=%q HOME=%q exist=%d", s.args, en, h, exist), func(c *C) {
			abs := func(p string) string { return strings.Replace(p, "ABS", env.W(), 1) }
			args := append([]string(nil), s.args...)
			for i := range args {
				args[i] = abs(args[i])
			}
			must(env.MkdirAll(env.P("sub")))
			vars := []string{"HOME="}
			at := "dupi"
			if h != "" {
				must(env.MkdirAll(env.P(h + ".home")))
				vars[0] += env.P(h + ".home")
				at = h + ".home/.dupi"
			}
			if en != "-" {
				vars = append(vars, "DUPIROOT="+abs(en))
				if en != "" {
					at = strings.TrimPrefix(en, "ABS/")
				}
			}
			if s.name != "" {
				at = s.name
			}
			// indexes at all places that could be meant
			var ps []*place
			var me *place
			seen := map[string]bool{}
			for i, n := range []string{at, "dupi", "x", "y", "h.home/.dupi", "extract", "index", "z", "extract.home/.dupi", ".dupi"} {
				if seen[n] {
					continue
				}
				seen[n] = true
				if i == 0 && exist == 0 {
					must(env.MkdirAll(filepath.Dir(env.P(n))))
					continue
				}
				ps = append(ps, c.mkPlace(env.P(n), i))
				if i == 0 {
					me = ps[0]
				}
			}
			must(env.MkdirAll(env.P("q")))
			must(env.WriteFile(env.P("q/new"), []byte(words(5, 6, 0, 1))))
			for _, v := range c29verbs {
				before := noLocks()
				line := append(append([]string(nil), args...), strings.Fields(v)...)
				var b uint32
				if me != nil {
					b = me.f.windows(words(0, 1))[0].blot
				}
				switch v {
				case "blot", "like":
					line = append(line, "q/new")
				case "unblot":
					line = append(line, fmt.Sprintf("%x", b))
				case "index":
					line = append(line, "-n", "2", "-t", "1", "q")
				case "index -a":
					line = append(line, "q")
				}
				res := c.cli(env.W(), vars, line...)
				what := fmt.Sprintf("dupi %q with %q", line, vars)
				bad := me == nil && v != "index" || me != nil && v == "index"
				if bad != (res.code != 0) {
					c.Fail("%s: exit status %d: %s; the index is %s, exists: %v", what, res.code, short(res.stderr, 300), at, me != nil)
				}
				if bad && res.out != "" && v != "index" {
					c.Fail("%s: printed %q without an index", what, short(res.out, 200))
				}
				may := func(string) bool { return false }
				if !bad && strings.HasPrefix(v, "index") {
					rel := at + "/"
					may = func(k string) bool {
						k = strings.TrimPrefix(strings.TrimPrefix(k, env.W()), "/")
						return strings.HasPrefix(k, rel) || k == at
					}
				}
				if l := changed(before, noLocks(), may); len(l) > 0 {
					c.Fail("%s changed %q; the index is %s", what, l, at)
				}
				if bad {
					continue
				}
				c.Eval(1)
				nd := rDoc{env.P("q/new"), 0, uint32(len(words(5, 6, 0, 1))), words(5, 6, 0, 1)}
				switch v {
				case "index -a":
					me.docs = append(me.docs, nd)
					c.sameIndex(me.root, me.ref())
				case "index":
					r := newRef(cf(2, 1, 1, 1, 1))
					r.add(nd, "")
					c.sameIndex(env.P(at), r)
				case "inspect":
					if !strings.Contains(res.out, env.P(at)+":") || !strings.Contains(res.out, fmt.Sprintf("- %d docs\n", len(me.docs))) {
						c.Fail("%s prints %q; the index is %s", what, short(res.out, 300), at)
					}
				case "extract":
					for _, p := range ps {
						if strings.Contains(res.out, p.docs[0].path+"@") && p != me {
							c.Fail("%s prints %q; the index is %s", what, short(res.out, 300), at)
						}
					}
					if !strings.Contains(res.out, me.docs[0].path+"@") {
						c.Fail("%s prints %q; the index is %s", what, short(res.out, 300), at)
					}
				case "blot":
					var want []string
					for _, w := range me.f.windows(nd.text) {
						want = append(want, fmt.Sprintf("%x", w.blot))
					}
					if g := strings.Join(lines(res.out), " "); g != strings.Join(want, " ") {
						c.Fail("%s prints %s, want %s", what, g, want)
					}
				case "unblot", "like":
					for _, p := range ps {
						if strings.Contains(res.out, p.docs[0].path+" ") != (p == me) {
							c.Fail("%s prints %q; the index is %s", what, short(res.out, 300), at)
						}
					}
				}
			}
			c.Note("%s", at)
		})
	}
	for _, s := range sels {
		for _, en := range envs {
			for _, h := range homes {
				for exist := 0; exist < 2; exist++ {
					if !t.Thorough && (len(s.name)*7+len(en)*3+len(h)+exist)%3 == 0 && s.name != "" && s.name != "extract" {
						continue
					}
					one(s, en, h, exist)
				}
			}
		}
	}
	odd := []string{"~x", "~", "~/x", "~root", "$HOME", "$HOME/x", "${x}", "%x", "%41", "*", "x*", "?", "[x]", "{a,b}", "@x", "#x", "\\x", "x\\", "x:y", "file:x", "w.lock", "u.", "..x", "...", "x,y", "x;y", "`x`", "'x'", "\"x\"", "!x", "&", "|", "a\tb", " x", "x ", " ", "x\r", "\x7f", "\xff", strings.Repeat("n", 200), "X", "0", "true", "cfg.json"}
	for i, o := range odd {
		for exist := 0; exist < 2; exist++ {
			one(sel{[]string{"-r", o}, o}, "y", "h", exist)
			if t.Thorough || (i+exist)%2 == 0 {
				one(sel{[]string{"-r=" + o}, o}, o+"2", "h", exist)
				one(sel{nil, ""}, o, "h", exist)
			}
		}
	}
	t.Space("%d names with characters that mean something elsewhere, given with -r and as DUPIROOT: all verbs", len(odd))
	t.Space("%d ways to give -r, %d values of DUPIROOT and %d of HOME, with an index at the place and without, and indexes at all other places: all verbs", len(sels), len(envs), len(homes))
	c29refused(t)
	c29args(t)
	c29config(t)
}

// c29refused runs commands that must fail.
func c29refused(t *T) {
	kinds := []string{"none", "noparent/none", "file", "dir", "noconfig", "halfconfig", "nodmd", "nofnm", "noiix", "nopos", "halfiix", "halffnm", "badtoken"}
	for _, k := range kinds {
		k := k
		t.Case("bad index "+k, func(c *C) {
			p := c.mkPlace(env.P("idx"), 1)
			rm := func(n string) { must(env.Remove(env.P("idx/" + n))) }
			half := func(n string) {
				d, e := env.ReadFile(env.P("idx/" + n))
				must(e)
				must(env.WriteFile(env.P("idx/"+n), d[:len(d)/2]))
			}
			at := "idx"
			switch k {
			case "none", "noparent/none":
				at = k
			case "file":
				at = "file"
				must(env.WriteFile(env.P("file"), []byte("x")))
			case "dir":
				at = "dir"
				must(env.MkdirAll(env.P("dir/sub")))
			case "noconfig":
				rm("cfg.json")
			case "halfconfig":
				half("cfg.json")
			case "nodmd":
				rm("dmd")
			case "nofnm":
				rm("files.fnm")
			case "noiix":
				rm("b1.pos.iix")
			case "nopos":
				rm("b1.pos")
			case "halfiix":
				half("b1.pos.iix")
			case "halffnm":
				half("files.fnm")
			case "badtoken":
				d, e := env.ReadFile(env.P("idx/cfg.json"))
				must(e)
				must(env.WriteFile(env.P("idx/cfg.json"), []byte(strings.Replace(string(d), "words.simple", "words.simplf", 1))))
			}
			for _, v := range []string{"inspect", "inspect -json", "extract", "extract -json", "blot t/p1-0", "blot -offsets t/p1-0", "unblot 0", "unblot -all 0", "like t/p1-0", "index -a t", "index t"} {
				if v == "index t" && k == "none" {
					continue
				}
				before := noLocks()
				res := c.cli(env.W(), nil, append([]string{"-r", at}, strings.Fields(v)...)...)
				if res.code == 0 {
					c.Fail("dupi -r %s %s: exit status 0 with an index that is bad (%s): %s", at, v, k, short(res.out, 300))
				}
				if res.out != "" {
					c.Fail("dupi -r %s %s: printed %q", at, v, short(res.out, 300))
				}
				if l := changed(before, noLocks(), func(string) bool { return false }); len(l) > 0 {
					c.Fail("dupi -r %s %s: failed, but changed %q", at, v, l)
				}
				c.Eval(1)
			}
			c.Note("%d", p.i)
		})
	}
	t.Space("%d kinds of missing, foreign and damaged indexes: 11 commands", len(kinds))
	lines := []string{"", "nosuch", "-r idx", "-r idx nosuch", "-r idx Index t", "-r idx idx extract", "-nosuch extract", "-r idx extract -nosuch", "-r idx inspect -x", "-r idx extract -sigma x", "-r",
		"-r idx index t", "-r idx index -a nosuch", "-r new index -n 0 t", "-r new index -n -1 t", "-r new index -n 65536 t", "-r new index -t 0 t", "-r new index -t -3 t", "-r new index -s 0 t", "-r new index -s -1 t", "-r new index -c nosuch t", "-r new index -c t/p1-0 t",
		"-r new index -n x t", "-r idx/cfg.json index t", "-r idx/cfg.json/x index t", "-r nodir/new index t",
		"-r idx blot nosuch", "-r idx blot t", "-r idx blot t/p1-0 nosuch", "-r idx blot nosuch t/p1-0", "-r idx like nosuch", "-r idx like t", "-r idx like t/p1-0 nosuch", "-r idx like nosuch t/p1-0",
		"-r idx unblot zz", "-r idx unblot g", "-r idx unblot 1g", "-r idx unblot 1,2", "-r idx unblot 1.", "-r idx unblot 123456789", "-r idx unblot 100000000", "-r idx unblot 0 zz", "-r idx unblot zz 0", "-r idx unblot -all 1h", "-r idx unblot +", "-r idx unblot _1"}
	for _, l := range lines {
		l := l
		t.Case("refused: "+l, func(c *C) {
			p := c.mkPlace(env.P("idx"), 1)
			before := noLocks()
			res := c.cli(env.W(), []string{"DUPIROOT=" + env.P("other")}, strings.Fields(l)...)
			if res.code == 0 {
				c.Fail("dupi %s: exit status 0, printed %q", l, short(res.out, 300))
			}
			after := noLocks()
			if l := changed(before, after, func(string) bool { return false }); len(l) > 0 {
				c.Fail("failed, but changed %q", l)
			}
			c.sameIndex(p.root, p.ref())
			c.Eval(1)
		})
	}
	t.Space("%d command lines without or with unknown verbs, flags, files and blots", len(lines))
}

// c29args runs command lines in which flags, what looks like one, and the
// separator follow the verb: flags end at the first argument that is none.
func c29args(t *T) {
	toks := []string{"a", "-all", "-offsets", "-v", "--"}
	flags := map[string][]string{"blot": {"-offsets"}, "unblot": {"-all"}, "like": nil, "index -a": {"-v"}}
	depth := 3
	for _, v := range []string{"blot", "unblot", "like", "index -a"} {
		for n := 1; n <= depth; n++ {
			v, n := v, n
			choose(len(toks), n, func(sel []int) {
				var line []string
				for _, k := range sel {
					line = append(line, toks[k])
				}
				t.Case(fmt.Sprintf("%s %q", v, line), func(c *C) {
					p := c.mkPlace(env.P("idx"), 1)
					text := map[string]string{}
					for i, k := range toks {
						text[k] = words(0, 1, 2+i, 5, 0, 1)
						must(env.WriteFile(env.P(k), []byte(text[k])))
					}
					rest, bad := line, false
					on := map[string]bool{}
					for len(rest) > 0 && rest[0] != "a" && !bad {
						f := rest[0]
						rest = rest[1:]
						if f == "--" {
							break
						}
						known := false
						for _, k := range flags[v] {
							known = known || f == k
						}
						on[f], bad = true, !known
					}
					want := ""
					switch {
					case bad:
					case v == "blot":
						for _, a := range rest {
							for _, w := range p.f.windows(text[a]) {
								if on["-offsets"] {
									want += fmt.Sprintf("%x %d:%d\n", w.blot, w.start, w.end)
								} else {
									want += fmt.Sprintf("%x\n", w.blot)
								}
							}
						}
					case v == "like":
						for _, a := range rest {
							want += "like " + a + ":\n"
						}
					case v == "unblot":
						for _, a := range rest {
							bad = bad || a != "a"
						}
					}
					before := noLocks()
					res := c.cli(env.W(), nil, append(append([]string{"-r", "idx"}, strings.Fields(v)...), line...)...)
					what := fmt.Sprintf("dupi -r idx %s %q", v, line)
					if bad != (res.code != 0) {
						c.Fail("%s: exit status %d: %s", what, res.code, short(res.stderr, 300))
					}
					got := ""
					for _, l := range lines(res.out) {
						if v != "like" || strings.HasPrefix(l, "like ") {
							got += l + "\n"
						}
					}
					if got != want && v != "unblot" {
						c.Fail("%s prints %q, want %q", what, short(got, 300), short(want, 300))
					}
					if v == "index -a" && !bad {
						for _, a := range rest {
							p.docs = append(p.docs, rDoc{env.P(a), 0, uint32(len(text[a])), text[a]})
						}
						c.sameIndex(p.root, p.ref())
					} else if l := changed(before, noLocks(), func(string) bool { return false }); len(l) > 0 {
						c.Fail("%s changed %q", what, l)
					}
					c.Eval(1)
					c.Note("%v", bad)
				})
			})
		}
	}
	t.Space("all command lines of up to %d of %d arguments after blot, unblot, like and index -a: flags, file names that look like flags, the separator", depth, len(toks))
}

// choose calls f with every sequence of n numbers below k.
func choose(k, n int, f func([]int)) {
	sel := make([]int, n)
	for {
		f(append([]int(nil), sel...))
		i := n - 1
		for ; i >= 0; i-- {
			if sel[i]++; sel[i] < k {
				break
			}
			sel[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// c29config runs index -c.
func c29config(t *T) {
	cfs := []Cf{cf(1, 1, 1, 1, 1), cf(2, 3, 2, 2, 1), cf(4, 2, 3, 1, 2), cf(8, 1, 16384, 2, 2), cf(2, 2, 5, 1, 3)}
	flags := [][]string{nil, {"-n", "3", "-t", "7", "-s", "2"}, {"-n", "0"}, {"-t", "-1"}}
	for _, f := range cfs {
		for gi, g := range flags {
			for r := 0; r < 3; r++ {
				for exist := 0; exist < 2; exist++ {
					f, g, gi, r, exist := f, g, gi, r, exist
					t.Case(fmt.Sprintf("-c with %s, flags %d, root %d, exist=%d", f, gi, r, exist), func(c *C) {
						root := env.P("fromfile")
						args := [][]string{nil, {"-r", "flag"}, {"-r", root}}[r]
						cfg := f.config(root)
						j, e := json.Marshal(cfg)
						must(e)
						must(env.WriteFile(env.P("my.json"), j))
						if exist == 1 {
							c.mkPlace(root, 2)
						}
						fl := c.mkPlace(env.P("flag"), 3)
						must(env.MkdirAll(env.P("q")))
						ref := newRef(f)
						for i, ws := range [][]int{{0, 1, 2, 3, 4, 5, 6}, {1, 0, 2, 3, 4, 5}, {}} {
							d := rDoc{env.P(fmt.Sprintf("q/%d", i)), 0, uint32(len(words(ws...))), words(ws...)}
							must(env.WriteFile(d.path, []byte(d.text)))
							ref.add(d, "")
						}
						before := noLocks()
						line := append(append(append([]string(nil), args...), "index"), g...)
						line = append(line, "-c", "my.json", "q")
						res := c.cli(env.W(), nil, line...)
						if (exist == 1) != (res.code != 0) {
							c.Fail("dupi %q: exit status %d: %s", line, res.code, short(res.stderr, 300))
						}
						if l := changed(before, noLocks(), func(k string) bool { return exist == 0 && strings.Contains(k, "fromfile") }); len(l) > 0 {
							c.Fail("dupi %q changed %q", line, l)
						}
						c.sameIndex(fl.root, fl.ref())
						if exist == 0 {
							c.sameIndex(root, ref)
							got, e := dupi.ReadConfigFromRoot(root)
							if e != nil || *got != *cfg {
								c.Fail("the index has the configuration %+v, %v, want %+v", got, e, cfg)
							}
						}
						c.Eval(1)
						c.Note("%v", exist)
					})
				}
			}
		}
	}
	t.Space("index -c with %d configurations, %d sets of other flags, 3 ways to give -r, an index at the place of the configuration or none", len(cfs), len(flags))
}
