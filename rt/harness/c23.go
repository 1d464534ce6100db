//go:build go1.21 && !zzinst

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/go-air/dupi/zz_verif/env"
)

func init() { checks["C23"] = c23 }

// ent is an entry of a directory tree.
type ent struct {
	name string
	kind byte // h another name of out/hard, f file, d directory, l link to a file, L link to a directory, x dangling link, u unreadable file, U unreadable directory, p pipe, P link to a pipe, s socket, D link to a device
	text string
	kids []ent
}

// put makes the entry at the path.
func (e ent) put(p string) {
	switch e.kind {
	case 'f', 'u':
		must(env.WriteFile(p, []byte(e.text)))
		if e.kind == 'u' {
			must(os.Chmod(p, 0))
		}
	case 'd', 'U':
		must(env.MkdirAll(p))
		for _, k := range e.kids {
			k.put(p + "/" + k.name)
		}
		if e.kind == 'U' {
			must(os.Chmod(p, 0))
		}
	case 'l':
		must(env.WriteFile(env.P("out/f-"+e.text[:4]), []byte(e.text)))
		must(env.Symlink(env.P("out/f-"+e.text[:4]), p))
	case 'h':
		if _, e := os.Lstat(env.P("out/hard")); e != nil {
			must(env.WriteFile(env.P("out/hard"), []byte(hardText())))
		}
		must(os.Link(env.P("out/hard"), p))
	case 'L':
		must(env.Symlink(env.P("out"), p))
	case 'x':
		must(env.Symlink(env.P("nothing"), p))
	case 'p':
		must(syscall.Mkfifo(p, 0644))
	case 's':
		fd, e := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
		must(e)
		defer syscall.Close(fd)
		rel, e := filepath.Rel(env.P("t"), p) // names of sockets are short
		must(e)
		here, e := os.Getwd()
		must(e)
		must(env.Chdir(env.P("t")))
		e = syscall.Bind(fd, &syscall.SockaddrUnix{Name: rel})
		must(env.Chdir(here))
		must(e)
	case 'P':
		if _, e := os.Lstat(env.P("out/pipe")); e != nil {
			must(syscall.Mkfifo(env.P("out/pipe"), 0644))
		}
		must(env.Symlink(env.P("out/pipe"), p))
	case 'D':
		must(env.Symlink("/dev/zero", p))
	}
}

// unlockAll makes everything removable again.
func (e ent) restore(p string) {
	if e.kind == 'U' {
		os.Chmod(p, 0755)
	}
	for _, k := range e.kids {
		k.restore(p + "/" + k.name)
	}
}

// want lists what is indexed when the entry is given or found, in order.
func (e ent) want(p string, given bool, docs *[]rDoc, failed *bool) {
	if !given && strings.HasPrefix(e.name, ".") {
		return
	}
	switch e.kind {
	case 'f', 'l':
		*docs = append(*docs, rDoc{p, 0, uint32(len(e.text)), e.text})
	case 'h':
		*docs = append(*docs, rDoc{p, 0, uint32(len(hardText())), hardText()})
	case 'p', 's', 'P', 'D': // nothing to index
	case 'd':
		for _, k := range e.kids {
			k.want(filepath.Join(p, k.name), false, docs, failed)
		}
	default:
		*failed = true
	}
}

// words joins some of the low words.
func words(is ...int) string {
	var l []string
	for _, i := range is {
		l = append(l, low(i))
	}
	return strings.Join(l, " ")
}

// entry makes an entry of the kind; tag and name make its content unique.
func entry(kind int, pre string, tag int) (ent, bool) {
	text := words(0, 0, 1, 2+2*tag, 3+2*tag)
	f := func(name string) ent {
		n := 0
		for _, b := range []byte(name) {
			n += int(b)
		}
		return ent{name: name, kind: 'f', text: text + ". " + low(20+n%40)}
	}
	switch kind {
	case 0:
		return ent{}, false
	case 1:
		return f(pre + "file"), true
	case 2:
		return ent{name: pre + "empty", kind: 'f'}, true
	case 3:
		return f("." + pre + "hidden"), true
	case 4:
		return ent{name: "." + pre + "hd", kind: 'd', kids: []ent{f("a"), {name: "b", kind: 'd', kids: []ent{f("c")}}}}, true
	case 5:
		return ent{name: pre + "dir", kind: 'd', kids: []ent{f("a"), f("b.txt")}}, true
	case 6:
		return ent{name: pre + "dir", kind: 'd', kids: []ent{f(".h"), {name: "n", kind: 'd', kids: []ent{f("..g"), f("k")}}, f("z")}}, true
	case 7:
		return ent{name: pre + "link", kind: 'l', text: fmt.Sprintf("%04d ", tag) + text}, true
	case 8:
		return ent{name: pre + "ldir", kind: 'L'}, true
	case 9:
		return ent{name: pre + "dangling", kind: 'x'}, true
	case 10:
		return ent{name: pre + "unread", kind: 'u', text: text}, true
	case 11:
		return ent{name: pre + "udir", kind: 'U', kids: []ent{f("a")}}, true
	case 12:
		return ent{name: pre + "nodir", kind: 'd'}, true
	case 13:
		return f(pre + " ö\n'x\"."), true
	case 14:
		return ent{name: "." + pre + "dl", kind: 'x'}, true
	case 15:
		return ent{name: "." + pre + "unread", kind: 'u', text: text}, true
	case 16:
		return ent{name: "." + pre + "udir", kind: 'U'}, true
	case 17:
		return ent{name: "..." + pre, kind: 'd', kids: []ent{f("a")}}, true
	case 19:
		return ent{name: pre + "hard", kind: 'h'}, true
	case 18:
		return ent{name: pre + "words", kind: 'f', text: " .,- \n"}, true
	}
	panic(kind)
}

const nEnt = 20

// hardText is in the file that has several names.
func hardText() string { return words(0, 1, 50, 0, 1) }

// rootDir is used because an unreadable file is readable for root.
var canRead0 = func() bool {
	p := filepath.Join(env.Base, "zz-unreadable")
	os.WriteFile(p, []byte("x"), 0)
	defer os.Remove(p)
	f, e := os.Open(p)
	if e == nil {
		f.Close()
	}
	return e == nil
}

// indexed runs 'dupi index' and compares with what is wanted.
func (c *C) indexed(r *Ref, cwd string, envs []string, args []string, docs []rDoc, failed bool, root string) {
	res := c.cli(cwd, envs, args...)
	if (res.code != 0) != failed {
		c.Fail("dupi %s: exit status %d, want %s; %s", strings.Join(args, " "), res.code, map[bool]string{true: "a failure", false: "0"}[failed], short(res.stderr, 400))
	}
	for _, d := range docs {
		r.add(d, cwd)
	}
	c.sameIndex(root, r)
	if !env.LockFree(root + ".lock") {
		c.Fail("the index stays locked")
	}
}

func c23(t *T) {
	if canRead0() {
		t.incomplete("unreadable files cannot be tested as root")
	}
	skip := func(k int) bool { return (k == 10 || k == 11 || k == 15 || k == 16) && canRead0() }
	f1 := cf(1, 2, 16384, 1, 1)
	// all small trees
	one := func(key string, tree ent, arg func() (cwd string, a []string)) {
		t.Case(key, func(c *C) {
			must(env.MkdirAll(env.P("out")))
			must(env.WriteFile(env.P("out/inner"), []byte("never to be read")))
			tree.put(env.P("t"))
			defer tree.restore(env.P("t"))
			cwd, a := arg()
			var docs []rDoc
			failed := false
			tree.want(env.P("t"), true, &docs, &failed)
			before := env.Snapshot(env.P("t"))
			c.indexed(newRef(f1), cwd, nil, append([]string{"-r", env.P("idx"), "index", "-n", "1", "-t", "1", "-s", "2"}, a...), docs, failed, env.P("idx"))
			if d := env.Diff(before, env.Snapshot(env.P("t"))); len(d) > 0 {
				c.Fail("the documents are changed: %v", d)
			}
			c.Note("%d docs, failed %v", len(docs), failed)
		})
	}
	here := func() (string, []string) { return env.P("t"), []string{"."} }
	slots, nested := 3, 2
	if t.Thorough {
		slots, nested = 4, 3
	}
	pre := []string{"a", "m", "s", "z"}
	build := func(s []int) ([]ent, bool) {
		var l []ent
		for i, k := range s {
			if skip(k) {
				return nil, false
			}
			// no gaps but at the end
			if k == 0 && i+1 < len(s) && s[i+1] != 0 {
				return nil, false
			}
			if e, ok := entry(k, pre[i], i); ok {
				l = append(l, e)
			}
		}
		// in the order of names
		for i := range l {
			for j := i; j > 0 && l[j].name < l[j-1].name; j-- {
				l[j], l[j-1] = l[j-1], l[j]
			}
		}
		return l, true
	}
	combos(nEnt, slots, func(s []int) {
		if l, ok := build(s); ok {
			one(fmt.Sprintf("tree %v", s), ent{name: "t", kind: 'd', kids: l}, here)
		}
	})
	combos(nEnt, nested, func(s []int) {
		if l, ok := build(s); ok {
			b, _ := entry(1, "a", 4)
			a, _ := entry(1, "z", 5)
			h, _ := entry(3, "z", 6)
			one(fmt.Sprintf("nested tree %v", s), ent{name: "t", kind: 'd', kids: []ent{h, b, {name: "d", kind: 'd', kids: l}, a}}, here)
			one(fmt.Sprintf("deeper tree %v", s), ent{name: "t", kind: 'd', kids: []ent{{name: "d", kind: 'd', kids: []ent{b, {name: "d", kind: 'd', kids: l}}}, a}}, here)
		}
	})
	t.Space("all directories of up to %d entries of %d kinds, and of %d entries below other directories (between other files)", slots, nEnt-1, nested)
	// pipes, sockets and devices in every place among others
	for _, q := range []byte("pPsD") {
		for _, name := range []string{"a", "m", "z", ".p"} {
			for _, below := range []int{0, 1, 2} {
				for _, others := range []int{0, 1, 5, 9, 12} {
					q := ent{name: name, kind: q}
					l := []ent{q}
					if others > 0 {
						b, _ := entry(others, "b", 0)
						y, _ := entry(others, "y", 1)
						l = []ent{b, q, y}
						sort.Slice(l, func(i, j int) bool { return l[i].name < l[j].name })
					}
					for i := 0; i < below; i++ {
						f, _ := entry(1, "e", 2+i)
						l = []ent{{name: "d", kind: 'd', kids: l}, f}
					}
					one(fmt.Sprintf("%c as %s among %d, %d below", q.kind, name, others, below), ent{name: "t", kind: 'd', kids: l}, here)
				}
			}
		}
	}
	t.Space("a pipe, a link to one, a socket, a link to a device: in every position among others, at 3 depths")
	// spellings of the given path
	for k := 0; k < nEnt; k++ {
		if skip(k) {
			continue
		}
		for sp := 0; sp < 10; sp++ {
			k, sp := k, sp
			l, _ := build([]int{1, k})
			one(fmt.Sprintf("tree with %d, given as %d", k, sp), ent{name: "t", kind: 'd', kids: l}, func() (string, []string) {
				must(env.MkdirAll(env.P(".h/g")))
				switch sp {
				case 0:
					return env.W(), []string{"t"}
				case 1:
					return env.W(), []string{"t/"}
				case 2:
					return env.W(), []string{"./t"}
				case 3:
					return env.W(), []string{env.P("t")}
				case 4:
					return env.W(), []string{"t/."}
				case 5:
					must(env.MkdirAll(env.P("t2/v")))
					return env.P("t2"), []string{"../t"}
				case 6:
					return env.P("t"), []string{"../t"}
				case 7:
					return env.W(), []string{".h/../t"}
				case 8:
					return env.P(".h/g"), []string{"../../t"}
				}
				return env.W(), []string{"t//", "t2", "t3"}[:1]
			})
		}
	}
	t.Space("%d trees x 10 spellings of the given path", nEnt)
	// '..' and hidden things that are given
	type given struct {
		name, cwd string
		args      []string
		failed    bool
		docs      []string
	}
	for _, g := range []given{
		{"parent", "g/sub", []string{".."}, false, []string{"g/a", "g/sub/b", "g/sub/c/d"}},
		{"grandparent", "g/sub/c", []string{"../.."}, false, []string{"g/a", "g/sub/b", "g/sub/c/d"}},
		{"hidden directory", "g", []string{".hid"}, false, []string{"g/.hid/x", "g/.hid/y/z"}},
		{"in hidden directory", "g", []string{".hid/y"}, false, []string{"g/.hid/y/z"}},
		{"current is hidden", "g/.hid", []string{"."}, false, []string{"g/.hid/x", "g/.hid/y/z"}},
		{"parent is hidden", "g/.hid/y", []string{".."}, false, []string{"g/.hid/x", "g/.hid/y/z"}},
		{"hidden, with hidden of the same name below", "g", []string{".same"}, false, []string{"g/.same/s/x", "g/.same/x"}},
		{"current is hidden, with hidden of the same name below", "g/.same", []string{"."}, false, []string{"g/.same/s/x", "g/.same/x"}},
		{"hidden, by its full path, with hidden of the same name below", "g", []string{"//"}, false, []string{"g/.same/s/x", "g/.same/x"}},
		{"hidden file", "g", []string{".hf"}, false, []string{"g/.hf"}},
		{"hidden file by path", "", []string{"g/.hf"}, false, []string{"g/.hf"}},
		{"file", "g", []string{"a"}, false, []string{"g/a"}},
		{"two files", "g", []string{"sub/b", "a"}, false, []string{"g/sub/b", "g/a"}},
		{"nothing", "g", nil, false, nil},
		{"missing", "g", []string{"nope"}, true, nil},
		{"missing first", "g", []string{"nope", "a", "sub"}, true, []string{"g/a", "g/sub/b", "g/sub/c/d"}},
		{"missing between", "g", []string{"a", "nope", "sub"}, true, []string{"g/a", "g/sub/b", "g/sub/c/d"}},
		{"missing last", "g", []string{"a", "sub", "nope"}, true, []string{"g/a", "g/sub/b", "g/sub/c/d"}},
		{"two missing", "g", []string{"n1", "a", "n2", "sub/c"}, true, []string{"g/a", "g/sub/c/d"}},
		{"file as directory", "g", []string{"a/x", "sub/c"}, true, []string{"g/sub/c/d"}},
		{"dash", "g", []string{"--", "-dash", "a"}, false, []string{"g/-dash", "g/a"}},
		{"name of a verb", "g", []string{"index"}, false, []string{"g/index"}},
	} {
		for _, v := range []bool{false, true} {
			g, v := g, v
			t.Case(fmt.Sprintf("given: %s, verbose %v", g.name, v), func(c *C) {
				text := map[string]string{}
				for i, p := range []string{"g/a", "g/sub/b", "g/sub/c/d", "g/sub/.e", "g/.hid/x", "g/.hid/y/z", "g/.hf", "g/-dash", "g/index",
					"g/.same/x", "g/.same/.same/y", "g/.same/s/x", "g/.same/s/.same"} {
					text[p] = words(0, 1, 2, 10+i, 3)
					if (p == "g/-dash" || p == "g/index") && g.name != "dash" && g.name != "name of a verb" {
						continue
					}
					must(env.MkdirAll(filepath.Dir(env.P(p))))
					must(env.WriteFile(env.P(p), []byte(text[p])))
				}
				var docs []rDoc
				for _, p := range g.docs {
					docs = append(docs, rDoc{env.P(p), 0, uint32(len(text[p])), text[p]})
				}
				a := []string{"-r", env.P("idx"), "index", "-n", "1", "-t", "2"}
				if v {
					a = append(a, "-v")
				}
				args := append([]string(nil), g.args...)
				for i, p := range args {
					if p == "//" {
						args[i] = env.P("g/.same")
					}
				}
				c.indexed(newRef(cf(1, 4, 16384, 2, 1)), env.P(g.cwd), nil, append(a, args...), docs, g.failed, env.P("idx"))
				c.Note("ok")
			})
		}
	}
	t.Space("parents, hidden and missing things given by name, in every position among others")
	// configurations and places of the index
	corpus := func() (docs []rDoc) {
		for i := 0; i < 5; i++ {
			text := strings.Repeat(words(0, 1, 2, 3, 2, 4, 0, 5, 6, 20+i%3, 7)+", ", i)
			p := env.P(fmt.Sprintf("t/f%d", i))
			must(env.MkdirAll(env.P("t")))
			must(env.WriteFile(p, []byte(text)))
			docs = append(docs, rDoc{p, 0, uint32(len(text)), text})
		}
		return
	}
	for _, n := range []int{1, 2, 4, 8, 16} {
		for _, s := range []int{1, 2, 4, 16} {
			for _, l := range []int{1, 2, 3, 10, 50} {
				for where := 0; where < 4; where++ {
					if !t.Thorough && (n+s+l+where)%3 != 0 {
						continue
					}
					n, s, l, where := n, s, l, where
					t.Case(fmt.Sprintf("-n %d -s %d -t %d, index at %d", n, s, l, where), func(c *C) {
						docs := corpus()
						f := cf(n, s, 16384, l, 1)
						flags := []string{"-n", fmt.Sprint(n), "-s", fmt.Sprint(s), "-t", fmt.Sprint(l)}
						root := env.P("t2/idx")
						must(env.MkdirAll(env.P("t2")))
						switch where {
						case 0:
							c.indexed(newRef(f), env.W(), nil, append(append([]string{"-r", "t2/idx", "index"}, flags...), "t"), docs, false, root)
						case 1:
							c.indexed(newRef(f), env.W(), []string{"DUPIROOT=" + root}, append(append([]string{"index"}, flags...), "t"), docs, false, root)
						case 2:
							c.indexed(newRef(f), env.P("t"), []string{"DUPIROOT=../elsewhere"}, append(append([]string{"-r=../t2/idx", "index"}, flags...), "."), docs, false, root)
						case 3: // from a file
							w, e := json.Marshal(f.config(root))
							must(e)
							must(env.WriteFile(env.P("cfg"), w))
							c.indexed(newRef(f), env.W(), nil, []string{"-r", root, "index", "-n", "5", "-c", "cfg", "t"}, docs, false, root)
						}
						c.Note("ok")
					})
				}
			}
		}
	}
	for where := 0; where < 2; where++ {
		where := where
		t.Case(fmt.Sprintf("default settings %d", where), func(c *C) {
			docs := corpus()
			home := env.P("home")
			must(env.MkdirAll(home))
			root := home + "/.dupi"
			envs := []string{"HOME=" + home}
			if where == 1 {
				root = env.P("t2")
				envs = append(envs, "DUPIROOT="+root)
			}
			c.indexed(newRef(cf(4, 4, 16384, 10, 1)), env.W(), envs, []string{"index", "t"}, docs, false, root)
			c.Note("ok")
		})
	}
	t.Space("shard counts, worker counts, window lengths, 4 ways of giving the place of the index or the configuration")
	// numbers and lengths of files
	nums := []int{0, 1, 2, 3, 63, 64, 65, 257}
	if t.Thorough {
		nums = append(nums, 1023, 1024, 1025, 4097, 16383, 16384, 16385, 33000)
	}
	for _, n := range nums {
		for _, s := range []int{1, 2, 8} {
			n, s := n, s
			t.Case(fmt.Sprintf("%d files, %d workers", n, s), func(c *C) {
				must(env.MkdirAll(env.P("t/d")))
				var docs []rDoc
				for i := 0; i < n; i++ {
					text := words(0, 10+i%32, 1, 10+i/32%32, 2, 10+i/1024)
					p := env.P(fmt.Sprintf("t/d/%05d", i))
					if i%3 == 1 {
						p = env.P(fmt.Sprintf("t/%05d", i))
					}
					must(env.WriteFile(p, []byte(text)))
					docs = append(docs, rDoc{p, 0, uint32(len(text)), text})
				}
				c.indexed(newRef(f1), env.W(), nil, []string{"-r", "idx", "index", "-n", "1", "-t", "1", "-s", fmt.Sprint(s), "t"}, docs, false, env.P("idx"))
				c.Note("ok")
			})
		}
	}
	for _, n := range []int{0, 1, 2, 511, 512, 513, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, 3<<20 + 1, 1<<22 - 1, 1 << 22, 1<<22 + 1, 1<<23 + 1, 1<<24 + 1} {
		n := n
		t.Case(fmt.Sprintf("file of %d bytes", n), func(c *C) {
			var b []byte
			for i := 0; len(b) < n; i++ {
				b = append(b, low(i*i/7)...)
				b = append(b, ' ')
			}
			b = b[:n]
			for i := n - 1; i >= 0 && b[i] != ' '; i-- {
				b[i] = ' '
			}
			must(env.MkdirAll(env.P("t")))
			must(env.WriteFile(env.P("t/f"), b))
			must(env.WriteFile(env.P("t/g"), []byte(words(3, 4, 5))))
			docs := []rDoc{{env.P("t/f"), 0, uint32(n), string(b)}, {env.P("t/g"), 0, uint32(len(words(3, 4, 5))), words(3, 4, 5)}}
			c.indexed(newRef(cf(4, 4, 16384, 2, 1)), env.W(), nil, []string{"-r", "idx", "index", "-t", "2", "t"}, docs, false, env.P("idx"))
			c.Note("ok")
		})
	}
	for _, n := range []int64{1 << 32, 1<<32 + 16} {
		n := n
		t.Case(fmt.Sprintf("file of %d bytes, which is too large", n), func(c *C) {
			must(env.MkdirAll(env.P("t/d")))
			must(env.WriteFile(env.P("t/a"), []byte(words(3, 4, 5))))
			must(env.WriteFile(env.P("t/d/f"), []byte(words(3, 4, 6, 7))))
			must(env.WriteFile(env.P("t/g"), []byte(words(3, 4, 5, 6))))
			if env.Truncate(env.P("t/d/f"), n) != nil {
				c.Note("ok") // files of this size are impossible here
				return
			}
			docs := []rDoc{{env.P("t/a"), 0, uint32(len(words(3, 4, 5))), words(3, 4, 5)}, {env.P("t/g"), 0, uint32(len(words(3, 4, 5, 6))), words(3, 4, 5, 6)}}
			c.indexed(newRef(cf(4, 4, 16384, 2, 1)), env.W(), nil, []string{"-r", "idx", "index", "-t", "2", "t"}, docs, true, env.P("idx"))
			c.Note("ok")
		})
	}
	t.Space("numbers of files around powers of two, 1, 2 and 8 workers; file lengths around powers of two, and of 2^32 bytes and more")
	// histories
	type op struct {
		name string
		args []string
		docs []string
	}
	ops := []op{
		{"index a", []string{"index", "-n", "2", "-t", "1", "a"}, []string{"a/x", "a/y"}},
		{"index a and a missing path", []string{"index", "-n", "2", "-t", "1", "a", "nope"}, []string{"a/x", "a/y"}},
		{"index nothing", []string{"index", "-n", "2", "-t", "1"}, nil},
		{"add b", []string{"index", "-a", "b"}, []string{"b/x"}},
		{"add b, flags that mean nothing", []string{"index", "-a", "-n", "3", "-t", "4", "-s", "1", "b"}, []string{"b/x"}},
		{"add a missing path and a/x", []string{"index", "-a", "nope", "a/x"}, []string{"a/x"}},
		{"add nothing", []string{"index", "-a"}, nil},
		{"index b with no shards", []string{"index", "-n", "0", "b"}, nil},
		{"index b with windows of no words", []string{"index", "-t", "0", "b"}, nil},
		{"index b with no workers", []string{"index", "-s", "0", "b"}, nil},
		{"index with a missing configuration", []string{"index", "-c", "nope", "b"}, nil},
	}
	depth := 3
	if t.Thorough {
		depth = 4
	}
	for n := 1; n <= depth; n++ {
		combos(len(ops), n, func(seq []int) {
			var name []string
			for _, o := range seq {
				name = append(name, ops[o].name)
			}
			seq = append([]int(nil), seq...)
			t.Case(strings.Join(name, "; "), func(c *C) {
				text := map[string]string{"a/x": words(0, 1, 2), "a/y": words(0, 2, 3, 4), "b/x": words(5, 1, 3)}
				for k, v := range text {
					must(env.MkdirAll(filepath.Dir(env.P(k))))
					must(env.WriteFile(env.P(k), []byte(v)))
				}
				var r *Ref
				root := env.P("idx")
				for i, o := range seq {
					p := ops[o]
					add := strings.Contains(strings.Join(p.args, " "), "-a")
					refused := strings.Contains(p.name, " no ") || strings.Contains(p.name, "missing configuration")
					works := !refused && add == (r != nil)
					fails := !works || strings.Contains(p.name, "missing path")
					var before map[string]string
					if !works {
						before = env.Snapshot(root)
					}
					res := c.cli(env.W(), []string{"DUPIROOT=" + root}, p.args...)
					if (res.code != 0) != fails {
						c.Fail("%s (%d): exit status %d: %s", p.name, i, res.code, short(res.stderr, 300))
					}
					if !works {
						if d := env.Diff(before, env.Snapshot(root)); len(d) > 0 {
							c.Fail("%s (%d) fails and changes the index: %s", p.name, i, short(strings.Join(d, " "), 300))
						}
						continue
					}
					if r == nil {
						r = newRef(cf(2, 4, 16384, 1, 1))
					}
					for _, d := range p.docs {
						r.add(rDoc{env.P(d), 0, uint32(len(text[d])), text[d]}, "")
					}
					c.sameIndex(root, r)
				}
				if r == nil {
					if _, e := env.Lstat(root); e == nil {
						c.Fail("no index was made but there is something")
					}
				}
				c.Note("ok")
			})
		})
	}
	t.Space("all sequences of 1..%d of %d runs that create or add to the index, or fail to", depth, len(ops))
}
