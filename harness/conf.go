package main

import (
	"bufio"
	"crypto/sha1"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"

	"github.com/performancecopilot/speed/v4"
)

// clients in processes of their own, with configurations of their own

// locChild is such a process: client NAME ERASE
func locChild() {
	name, erase := os.Getenv("VERIF_NAME"), os.Getenv("VERIF_ERASE") == "1"
	speed.EraseFileOnStop = erase
	var c *speed.PCPClient
	res := func(f func() error) string {
		r := guarded(f)
		fmt.Println(r)
		return r
	}
	in := bufio.NewReader(os.Stdin)
	if res(func() (err error) { c, err = speed.NewPCPClient(name); return }) == "ok" {
		m, err := speed.NewPCPCounter(7, "verif.counter")
		die(err)
		c.MustRegister(m)
		if res(c.Start) == "ok" {
			_, _ = in.ReadString('\n')
			res(c.Stop)
		} else {
			fmt.Println("none")
		}
	} else {
		fmt.Println("none")
		fmt.Println("none")
	}
	_, _ = in.ReadString('\n')
}

type treeEntry struct {
	dir bool
	sum string
}

func treeOf(root string) map[string]treeEntry {
	t := map[string]treeEntry{}
	die(filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		die(err)
		e := treeEntry{dir: fi.IsDir()}
		if fi.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			die(err)
			s := sha1.Sum(b)
			e.sum = fmt.Sprintf("%x %v", s[:8], fi.Mode())
		}
		t[p] = e
		return nil
	}))
	return t
}

func treeDiff(a, b map[string]treeEntry) (files, dirs []string) {
	for p, x := range a {
		y, ok := b[p]
		if ok && x == y {
			continue
		}
		if x.dir {
			dirs = append(dirs, p)
		} else {
			files = append(files, p)
		}
	}
	for p, y := range b {
		if _, ok := a[p]; !ok {
			if y.dir {
				dirs = append(dirs, p)
			} else {
				files = append(files, p)
			}
		}
	}
	return
}

func bytesAll(xs []string) [][]int {
	r := [][]int{}
	for _, x := range xs {
		r = append(r, ints([]byte(x)))
	}
	return r
}

type confCase struct {
	dirSet         bool
	dir, value     string
	lines          []string
	confAt         string // "env", "default", "missing", "both"
	name           string
	erase, nl, pre bool
	empty          bool // the directory is there, and empty
	kind           int  // what was left over: a file, a link to one of somebody else, another name of one
	deco           []string
}

func confRun(tmp string) {
	tr := newTrace()
	rnd := rand.New(rand.NewSource(*fSeed))
	self, err := os.Executable()
	die(err)
	uid := 65534
	names := []string{"plain", "with space", " lead", "trail ", " ", "\ttab", "UPPER", "ends\n", "ünïcode", "a.b", "...", "..x", ".hidden", "x..", "-", "~", "name\nline", "a\\b", "mmv", "*", "$HOME", "%s", strings.Repeat("n", 255),
		"", ".", "..", "/", "a/b", "../x", "/abs", "a/", "./a", "../../etc/x", "mmv/../x", "//", "x/..", strings.Repeat("n", 256), strings.Repeat("é", 130)}
	noise := []string{"", "# PCP configuration", "PCP_VERSION=5.0", "#PCP_TMP_DIR=/commented", "# PCP_TMP_DIR=/commented", "MY_PCP_TMP_DIR=/mine", "PCP_TMP_DIR_X=/x",
		"PCP_TMP_DIRS=/y", "PCP_TMP=/z", "PCP_VAR_DIR=/var/lib/pcp", "not a setting", "=", "=/w", "lower_PCP_TMP_DIR=/low", "PCP_TMPFILE_DIR=/tf", "X=PCP_TMP_DIR=/nested", "; PCP_TMP_DIR=/semi",
		"PCP_LOG_DIR=a=b", "xPCP_TMP_DIR=/glued", "PCP-TMP_DIR=/dash", "tmp_dir=/q", "PCP_TMP_DIR", "PCP_TMP_DIR /blank", "//PCP_TMP_DIR=/slashes"}
	values := []string{"/var/tmp", "var/tmp", "/tmp", "", "/", "/a b/c", "/x/../y", "/./z", "//dbl//slash", "/deep/er/and/deeper", "/ünï", "/with=equals", "/dots..", "/hash#tag", "/tmp/mmv"}
	cases := []confCase{}
	mk := func() confCase {
		c := confCase{name: names[rnd.Intn(len(names))], erase: rnd.Intn(2) == 0, nl: rnd.Intn(4) > 0, pre: rnd.Intn(3) == 0, empty: rnd.Intn(3) == 0, kind: rnd.Intn(3)}
		c.confAt = []string{"env", "default", "missing", "both", "env", "default"}[rnd.Intn(6)]
		c.dirSet = rnd.Intn(4) > 0
		c.dir = []string{"root", "root/", "root/sub/..", "rel", "root//x"}[rnd.Intn(5)]
		for n := rnd.Intn(6); n > 0; n-- {
			c.lines = append(c.lines, noise[rnd.Intn(len(noise))])
		}
		for n := []int{0, 1, 1, 1, 2, 3}[rnd.Intn(6)]; n > 0; n-- {
			l := "PCP_TMP_DIR=" + values[rnd.Intn(len(values))]
			at := rnd.Intn(len(c.lines) + 1)
			c.lines = append(c.lines[:at], append([]string{l}, c.lines[at:]...)...)
		}
		return c
	}
	// every name once, every line of noise once, every value once, then by chance
	for _, n := range names {
		c := mk()
		c.name = n
		cases = append(cases, c)
	}
	for _, x := range noise {
		for _, before := range []bool{true, false} {
			c := mk()
			c.name, c.confAt = "plain", []string{"env", "default"}[rnd.Intn(2)]
			if c.confAt == "default" {
				c.dirSet = true
			}
			if c.lines = []string{x}; rnd.Intn(3) > 0 {
				c.lines = []string{x, "PCP_TMP_DIR=/set"}
				if before {
					c.lines = []string{"PCP_TMP_DIR=/set", x}
				}
			}
			cases = append(cases, c)
		}
	}
	for _, v := range values {
		c := mk()
		c.name, c.confAt, c.lines = "val", "env", []string{"PCP_TMP_DIR=" + v}
		cases = append(cases, c)
	}
	for _, n := range []int{65535, 65536, 140000} {
		// lines of any length
		for _, first := range []string{strings.Repeat("#", n), "PCP_X=" + strings.Repeat("x", n-6)} {
			c := mk()
			c.name, c.confAt, c.dirSet, c.lines = "long", "env", true, []string{first, "PCP_TMP_DIR=/set"}
			cases = append(cases, c)
		}
	}
	for i := 0; i < *fN; i++ {
		cases = append(cases, mk())
	}
	evs := make([]J, len(cases))
	sem := make(chan bool, 6)
	var wg sync.WaitGroup
	for k, c := range cases {
		wg.Add(1)
		sem <- true
		go func(k int, c confCase) {
			defer func() { <-sem; wg.Done() }()
			evs[k] = confCaseRun(filepath.Join(tmp, fmt.Sprintf("case%d", k)), self, uid, c)
		}(k, c)
	}
	wg.Wait()
	for _, e := range evs {
		tr.emit(e)
	}
	tr.write(*fOut)
	fmt.Printf("sessions %d events %d\n", len(evs), len(evs))
}

func confCaseRun(base, self string, uid int, c confCase) J {
	cwd := filepath.Join(base, "cwd")
	systmp := filepath.Join(base, "systmp")
	for _, d := range []string{"cwd", "systmp", "root/etc", "cwd/rel/etc", "root/sub", "root/x/etc"} {
		die(os.MkdirAll(filepath.Join(base, d), 0777))
	}
	root := filepath.Join(base, c.dir)
	dirEnv := base + "/" + c.dir
	if c.dir == "rel" {
		root, dirEnv = filepath.Join(cwd, "rel"), "rel"
	}
	lines := append([]string{}, c.lines...)
	if !c.dirSet {
		// under the real root only places in the scratch directory can be set
		for i, l := range lines {
			if strings.HasPrefix(l, "PCP_TMP_DIR=") {
				lines[i] = "PCP_TMP_DIR=" + base + "/abs/" + strings.TrimPrefix(l, "PCP_TMP_DIR=")
				lines[i] = strings.Replace(lines[i], "/..", "/up", -1)
			}
		}
		if c.confAt == "default" {
			c.confAt = "env"
		}
	}
	text := strings.Join(lines, "\n")
	if c.nl {
		text += "\n"
	}
	env := []string{"TMPDIR=" + systmp, "VERIF_NAME=" + c.name, "HOME=" + base, "PATH=/usr/bin:/bin"}
	if c.erase {
		env = append(env, "VERIF_ERASE=1")
	}
	if c.dirSet {
		env = append(env, "PCP_DIR="+dirEnv)
	}
	has := true
	def := filepath.Join(root, "etc", "pcp.conf")
	if !c.dirSet {
		def = filepath.Join(base, "root", "etc", "pcp.conf")
	}
	other := filepath.Join(base, "my.conf")
	wr := func(p, s string) { die(os.WriteFile(p, []byte(s), 0644)) }
	switch c.confAt {
	case "env":
		wr(other, text)
		env = append(env, "PCP_CONF="+other)
	case "both":
		wr(other, text)
		wr(def, "PCP_TMP_DIR=/wrong\n")
		env = append(env, "PCP_CONF="+other)
	case "default":
		wr(def, text)
	case "missing":
		has = false
		env = append(env, "PCP_CONF="+filepath.Join(base, "nowhere.conf"))
		wr(def, text)
	}
	// files of others
	others := []string{"systmp/mmv/other", "systmp/other", "root/mmv/other", "root/other", "root/var/tmp/mmv/other", "root/tmp/mmv/x", "cwd/file", "etc/x", "x", "root/tmp/x", "b", "root/tmp/b"}
	if c.empty {
		others, c.pre = []string{"systmp/other", "root/other", "cwd/file", "etc/x", "x"}, false
	}
	for _, p := range others {
		die(os.MkdirAll(filepath.Dir(filepath.Join(base, p)), 0777))
		wr(filepath.Join(base, p), "other "+p)
	}
	if c.pre && c.name != "" && c.name != "mmv" && !strings.Contains(c.name, "/") && c.name != "." && c.name != ".." && len(c.name) < 256 {
		ds := []string{"systmp/mmv", "root/tmp/mmv", "root/var/tmp/mmv"}
		for _, l := range lines {
			if v := strings.TrimPrefix(l, "PCP_TMP_DIR="); v != l && c.dirSet {
				if d, err := filepath.Rel(base, filepath.Join(root, v, "mmv")); err == nil && !strings.HasPrefix(d, "..") {
					ds = append(ds, d)
				}
			}
		}
		theirs := filepath.Join(base, "systmp", "theirs")
		wr(theirs, "of somebody else")
		for _, d := range ds {
			p := filepath.Join(base, d, c.name)
			if _, err := os.Lstat(p); err == nil || os.MkdirAll(filepath.Dir(p), 0777) != nil {
				continue
			}
			switch c.kind {
			case 0:
				wr(p, "left over")
			case 1:
				die(os.Symlink(theirs, p))
			case 2:
				die(os.Link(theirs, p))
			}
		}
	}
	// files that others have next to that of the client, with names like its own
	if n := c.name; n != "" && !strings.Contains(n, "/") && n != "." && n != ".." && len(n) < 240 {
		near := []string{n + ".1", n + "~", n + ".tmp", n + ".old", "." + n, "." + n + ".swp", n + "2", n + ".mmv", n + ".lock", n + " ", "x" + n, n + n, strings.ToUpper(n), strings.ToLower(n), n + "-1", "#" + n + "#", n + ".0.new"}
		if len(n) > 1 {
			near = append(near, n[:len(n)-1], n[1:])
		}
		ds := []string{"systmp", "systmp/mmv", "root/tmp/mmv", "root/var/tmp/mmv", "root/a b/c/mmv", "root/mmv", "cwd/rel/tmp/mmv", "cwd/rel/var/tmp/mmv", "root/set/mmv"}
		for _, l := range lines {
			if v := strings.TrimPrefix(l, "PCP_TMP_DIR="); v != l && c.dirSet {
				if d, err := filepath.Rel(base, filepath.Join(root, v, "mmv")); err == nil && !strings.HasPrefix(d, "..") {
					ds = append(ds, d)
				}
			}
		}
		for _, d := range ds {
			if c.empty {
				_ = os.MkdirAll(filepath.Join(base, d), 0777)
				if filepath.Base(d) == "mmv" {
					continue
				}
			}
			for _, x := range near {
				p := filepath.Join(base, d, x)
				if x == n || x == "." || x == ".." || x == "" {
					continue
				}
				if _, err := os.Lstat(p); err != nil {
					if os.MkdirAll(filepath.Dir(p), 0777) == nil { // else it is a file that was left over
						wr(p, "neighbour "+x)
					}
				}
			}
		}
	}
	_ = filepath.Walk(base, func(p string, fi os.FileInfo, err error) error { return os.Lchown(p, uid, uid) })
	e := J{"name": ints([]byte(c.name)), "erase": c.erase}
	tset := []int{}
	lj := [][]int{}
	for _, l := range lines {
		lj = append(lj, ints([]byte(l)))
	}
	if len(text) == 0 {
		lj = [][]int{}
	}
	e["env"] = J{"cwd": ints([]byte(cwd)), "dir": J{"has": c.dirSet, "v": ints([]byte(dirEnv))}, "tmp": ints([]byte(systmp)), "conf": J{"has": has, "lines": lj}}
	_ = tset
	t0 := treeOf(base)
	run := func(cred bool) (*exec.Cmd, io.WriteCloser, *bufio.Reader, error) {
		cmd := exec.Command(self, "loc-child")
		cmd.Env, cmd.Dir = env, cwd
		if cred {
			cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uint32(uid), Gid: uint32(uid)}}
		}
		in, err := cmd.StdinPipe()
		die(err)
		out, err := cmd.StdoutPipe()
		die(err)
		return cmd, in, bufio.NewReader(out), cmd.Start()
	}
	cmd, in, out, err := run(os.Getuid() == 0)
	if err != nil {
		cmd, in, out, err = run(false)
	}
	die(err)
	read := func() string {
		s, err := out.ReadString('\n')
		if err != nil {
			return "died"
		}
		return strings.TrimSpace(s)
	}
	e["new"] = read()
	e["start"] = read()
	t1 := treeOf(base)
	_, _ = io.WriteString(in, "\n")
	e["stop"] = read()
	t2 := treeOf(base)
	_, _ = io.WriteString(in, "\n")
	_ = in.Close()
	_ = cmd.Wait()
	f1, d1 := treeDiff(t0, t1)
	f2, d2 := treeDiff(t1, t2)
	gone := []string{}
	for p, x := range t0 {
		if x.dir && (!t1[p].dir || !t2[p].dir) {
			gone = append(gone, p)
		}
	}
	e["gone"] = bytesAll(gone)
	e["chg1"], e["chg2"], e["dirs"] = bytesAll(f1), bytesAll(f2), bytesAll(append(d1, d2...))
	// is what was made a file of this format
	valid, left := false, false
	for _, p := range f1 {
		if b, err := os.ReadFile(p); err == nil {
			im := decode(b, len(b), newSyms())
			valid = im.ok && im.magic && im.g1 == im.g2
		}
		_, l := t2[p]
		left = left || l
	}
	if c.erase {
		valid = true
	}
	e["valid"], e["left"] = valid, left
	die(os.RemoveAll(base))
	return e
}
