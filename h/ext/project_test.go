package ext

import (
	"fmt"
	"maps"
	"path"
	"path/filepath"
	"slices"
	"strconv"
	"strings"

	"github.com/mewmew/typast/zz_verif/vgen"
)

// piece is part of the source of a file.
type piece struct {
	T string // source
	// What the source is: "import", "include", "res" (a resource) and "style" (a
	// style which may be a file) are string literals; at "as" a package may be
	// renamed.
	K string
	V string // value of the string literal
}

type version [3]uint32

func (v version) String() string { return fmt.Sprintf("%v.%v.%v", v[0], v[1], v[2]) }

func (v version) less(w version) bool {
	for i := range v {
		if v[i] != w[i] {
			return v[i] < w[i]
		}
	}
	return false
}

// tree is the files of a project or of a package.
type tree struct {
	Main string
	Typ  map[string][]piece
	Data map[string][]byte
}

// release is a version of a package.
type release struct {
	V        version
	Tree     tree
	Universe bool // it is in the universe
	Store    bool // it is in the store
	Link     bool // it is a symbolic link
}

type library struct {
	NS, Name string
	Releases []release
	Junk     []string // names next to the versions: directories, or files if they end with "!"
}

// spec is the specification of a release.
func (l library) spec(v version) string { return "@" + l.NS + "/" + l.Name + ":" + v.String() }

type project struct {
	Tree tree
	Libs []library
	// How the command is run.
	UseRoot  bool
	InProj   bool // the working directory is the project
	RelInput bool
	Out      string // "", "rel" or "abs"
	Verbose  bool
	Universe string // "", "rel" or "abs"
	XDG      bool
	Stale    bool
	InPlace  bool
	Fonts    map[string][]byte // in the working directory
}

// lit spells a string literal.
func lit(v vgen.T, s string) string {
	out := ""
	for _, r := range s {
		if v.Chance(1, 40) {
			out += fmt.Sprintf(`\u{%x}`, r)
		} else if r == '"' || r == '\\' {
			out += `\` + string(r)
		} else {
			out += string(r)
		}
	}
	return `"` + out + `"`
}

func space(v vgen.T) string {
	return v.Pick(" ", " ", " ", " ", "  ", "\t", " /* c */ ", `/* "@preview/no:0.1.0" */`, ` /* "no.typ" */`)
}

// oddName is the name of a file which string literals may spell in several ways.
func oddName(v vgen.T) string {
	return v.Pick("e é", "say \"q\"", "soft\u00adhyphen", "no\u00a0break", "\U0001f469\u200d\U0001f4bb", "b'{a}$x#y", "\ufeffbom", "e\u0301", "\U000e0041x", "%41", "a:b")
}

// quote spells a string literal in the plainest way.
func quote(s string) string {
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
}

// refs are what the files of a tree may refer to.
type refs struct {
	typ, res, csl []string
	specs         []string
	decoys        []string // resources which no reference names
}

// relative is a path from a file to another.
func relative(v vgen.T, from, to string) string {
	if v.Chance(1, 3) {
		return "/" + v.Pick("", "", "", "", "./") + to
	}
	rel, err := filepath.Rel(path.Dir(from), to)
	if err != nil {
		panic(err)
	}
	if v.Chance(1, 6) {
		rel = "./" + rel
	} else if d := path.Dir(from); d != "." && v.Chance(1, 6) {
		rel = "../" + path.Base(d) + "/" + rel
	}
	return rel
}

// statement is code, without a hash, on one line or in parentheses.
func statement(v vgen.T, from string, g refs) []piece {
	plain := func(s string) []piece { return []piece{{T: s}} }
	str := func(kind, s string) piece { return piece{lit(v, s), kind, s} }
	weights := []int{6, 6, 4, 0, 0, 4}
	if len(g.res) > 0 {
		weights[3] = 6
	}
	if len(g.csl) > 0 {
		weights[4] = 2
	}
	kind := v.W(weights...)
	switch {
	case kind == 0 && len(g.specs) > 0, kind == 1 && len(g.typ) > 0:
		what := ""
		if kind == 0 {
			what = g.specs[v.N(len(g.specs))]
		} else {
			what = relative(v, from, g.typ[v.N(len(g.typ))])
		}
		p := plain("import" + space(v))
		if v.Chance(1, 5) {
			in := func() string { return v.Pick("", "", " ", "\n ", " /* ) */ ") }
			p = append(plain("import"+v.Pick("", " ", " /* c */ ")+"("+in()), str("import", what), piece{T: in() + ")"})
		} else {
			p = append(p, str("import", what))
		}
		if v.Chance(1, 4) {
			p = append(p, piece{T: v.Pick("", space(v), space(v), space(v)) + "as" + space(v) + v.Pick("x", "other", "a-b")})
		} else {
			p = append(p, piece{K: "as"})
		}
		switch v.W(3, 3, 2, 2, 1) {
		case 1:
			p = append(p, piece{T: v.Pick(":", " :") + space(v) + v.Pick("a", "a, b", "a as b", "a.b, c as d", "as-x", "include-x")})
		case 2:
			p = append(p, piece{T: ":" + space(v) + "*"})
		case 3:
			p = append(p, piece{T: ":" + space(v) + v.Pick("(a, b)", "(\n  a,\n  b as c,\n)", "(a as b)", "(/* \"x\" */ a)")})
		case 4:
			p = append(p, piece{T: v.Pick("", " /* after */")})
		}
		return p
	case kind == 2 && len(g.typ) > 0:
		what := str("include", relative(v, from, g.typ[v.N(len(g.typ))]))
		switch v.N(4) {
		case 0:
			return []piece{{T: "include" + v.Pick("", " ") + "(" + v.Pick("", " ", "\n")}, what, {T: v.Pick("", " ", "\n") + ")"}}
		case 1:
			return []piece{{T: "let x = include" + space(v)}, what}
		}
		return []piece{{T: "include" + space(v)}, what}
	case kind == 3 && len(g.res) > 0:
		what := str("res", relative(v, from, g.res[v.N(len(g.res))]))
		switch v.N(12) {
		case 10, 11:
			// Within the arguments of a call which loads a file, there is another one.
			p := []piece{
				{T: v.Pick("image(", "read(", "json(", "bibliography(", "plugin(")}, what,
				{T: v.Pick(", alt: { ", ", x: { ", ", y: f[#", ")[#{ ")},
			}
			switch {
			case strings.HasSuffix(p[2].T, "[#"):
				p = append(p, statement(v, from, g)...)
				return append(p, piece{T: ";])"})
			case strings.HasSuffix(p[2].T, ")[#{ "):
				p = append(p, statement(v, from, g)...)
				return append(p, piece{T: " }]"})
			}
			p = append(p, statement(v, from, g)...)
			return append(p, piece{T: " })"})
		case 8:
			return []piece{{T: "let d = " + v.Pick("csv", "json", "toml", "yaml", "xml", "cbor") + "("}, what, {T: v.Pick(")", ").at(0)", `, delimiter: ";")`)}}
		case 9:
			return []piece{{T: `for r in csv(delimiter: ",", `}, what, {T: ") { r }"}}
		case 0:
			return []piece{{T: "image("}, what, {T: v.Pick(")", ", width: 50%)", `, alt: "no.png")`)}}
		case 1:
			return []piece{{T: "figure(image(" + v.Pick("", `alt: "no.png", `, "\n  ")}, what, {T: "), caption: [" + v.Pick("a", `"no.png"`) + "])"}}
		case 2:
			return []piece{{T: "let x = read("}, what, {T: ")"}}
		case 3:
			return []piece{{T: "read("}, what, {T: ").len()"}}
		case 4:
			return []piece{{T: "let p = plugin(" + v.Pick("", " ", "/* c */ ")}, what, {T: ")"}}
		case 5:
			return []piece{{T: "let f(x) = box(image(width: x, "}, what, {T: "))"}}
		}
		p := []piece{{T: "bibliography("}}
		if len(g.csl) > 0 && v.Chance(1, 2) {
			style := piece{T: `"ieee"`, K: "style", V: "ieee"}
			if v.Chance(2, 3) {
				style = str("style", relative(v, from, g.csl[v.N(len(g.csl))]))
			}
			if v.Chance(1, 3) {
				return append(p, piece{T: "style: "}, style, piece{T: v.Pick(", ", `, title: "no.csl", `)}, what, piece{T: ")"})
			}
			return append(p, what, piece{T: v.Pick(", style: ", `, title: "no.csl", style: `, ", full: true, style : ")}, style, piece{T: ")"})
		}
		return append(p, what, piece{T: v.Pick(")", `, title: "no.bib")`, `, style: "ieee")`)})
	case kind == 4 && len(g.csl) > 0:
		return []piece{{T: "set bibliography(" + v.Pick("", "title: none, ") + "style: "},
			str("style", relative(v, from, g.csl[v.N(len(g.csl))])), {T: ")"}}
	}
	no := "no.png"
	if len(g.decoys) > 0 {
		no = g.decoys[v.N(len(g.decoys))]
	}
	spec := "@preview/no:0.1.0"
	if len(g.specs) > 0 && v.Chance(1, 2) {
		spec = g.specs[v.N(len(g.specs))]
	}
	return plain(v.Pick(
		`let s = "`+spec+`"`, `let s = "import \"`+spec+`\""`, "f(`#import \""+spec+"\"`)", `raw("#include \"no.typ\"")`,
		`foo("`+no+`")`, `my.image("`+no+`")`, `figure("`+no+`")`, "image.with()", `let image2 = "`+no+`"`, `show "`+no+`": it => it`,
		`link("`+no+`")[image("`+no+`")]`, `import name`, `import calc: pow`, `let (a, b) = ("`+no+`", 1)`, `set text(font: "`+no+`")`,
		`images("`+no+`")`, `json.encode("`+no+`")`, `toml(bytes("`+no+`"))`, `csvs("`+no+`")`, `read.x("`+no+`")`, "f(1)", "let x = 1", "let = 3", "(1 +)", "(include-x, import-y)", `"include"`))
}

// source is the source of a file.
func source(v vgen.T, from string, g refs, max int) []piece {
	var p []piece
	add := func(s string) { p = append(p, piece{T: s}) }
	for i, n := 0, v.N(max); i < n; i++ {
		switch v.W(2, 1) {
		case 1:
			spec := "@preview/no:0.1.0"
			if len(g.specs) > 0 {
				spec = g.specs[v.N(len(g.specs))]
			}
			add(v.Pick("Text.\n", "\n\n", "= Heading\n", "// #import \""+spec+"\"\n", "/* #include \"no.typ\" */\n", "```typ\n#import \""+spec+"\"\n```\n",
				"`#image(\"no.png\")`\n", "import \""+spec+"\"\n", "image(\"no.png\")\n", "\\#import \""+spec+"\"\n", "- a\n- b\n", "*b* _e_ é 漢\r\n", "@ref <label>\n",
				"https://x.y/#import\n", "/ a: b\n", "'\"quotes\"'\n", "\u2028 \n", "#\"s\".len()\n", "tail #x.y, z\n"))
			continue
		}
		s := statement(v, from, g)
		pre, post := "#", "\n"
		switch v.N(18) {
		case 0:
			pre, post = "#{\n  ", "\n}\n"
		case 1:
			pre, post = "#let f(x) = {\n  ", "\n  x\n}\n"
		case 2:
			pre, post = "#[\n  #", "\n]\n"
		case 3:
			pre, post = "#if true [ #", " ] else { 1 }\n"
		case 4:
			pre, post = "- item\n  #", "\n"
		case 5:
			pre, post = "#f(x => { ", " })[a]\n"
		case 6:
			pre, post = "#for x in (1, 2) { let y = 1; ", "; y }\n"
		case 7:
			pre, post = "= Heading #", "\n"
		case 8:
			pre, post = "*b #", ";*\n"
		case 9:
			pre, post = "#", v.Pick(";text\n", "; // c\n", " // \"@preview/no:0.1.0\"\n")
		case 10:
			pre, post = "#context { if a { } else { ", " } }\n"
		case 11:
			pre, post = "$ a + #", "; / b $\n"
		case 12:
			pre, post = "$f(x, #{ ", " }; y)$\n"
		case 13:
			pre, post = "/ term: #", "\n"
		case 14:
			pre, post = "#show heading: it => { ", v.Pick(" }\n", "; it.body }[a]\n")
		}
		add(pre)
		p = append(p, s...)
		add(post)
	}
	if v.Chance(1, 4) {
		add("The end")
	}
	return p
}

func text(p []piece) string {
	out := ""
	for _, x := range p {
		out += x.T
	}
	return out
}

// tree generates the files of a project or a package.
func genTree(v vgen.T, main string, specs []string, max int, bib, lib bool) tree {
	t := tree{main, map[string][]piece{}, map[string][]byte{}}
	names := []string{main}
	for _, n := range []string{"a.typ", "sub/b.typ", "sub/deep/c.typ", "other/d.typ", oddName(v) + ".typ", "sub/" + oddName(v) + "/f.typ", "no.typ", "sub/" + path.Base(main)} {
		if n != main && v.Chance(1, 2) && !(lib && v.Chance(1, 2)) {
			names = append(names, n)
		}
	}
	g := refs{typ: names, specs: specs}
	data := []string{"img.png", "img/x.png", "sub/y.svg", "data.csv", "refs.bib", "deep/er/plug.wasm", "no.png", "sub/no.png", "my.csl", "styles/s.csl", oddName(v) + ".png"}
	for _, n := range data {
		if v.Chance(1, 2) || lib && v.Chance(2, 3) || !bib && v.Chance(4, 5) {
			continue
		}
		buf := make([]byte, v.N(6))
		for i := range buf {
			buf[i] = byte(v.N(256))
		}
		t.Data[n] = buf
		switch {
		case strings.Contains(n, "no."):
			g.decoys = append(g.decoys, n)
		case path.Ext(n) == ".csl":
			g.csl = append(g.csl, n)
		default:
			g.res = append(g.res, n)
		}
	}
	if !bib {
		g.res, g.csl = nil, nil
	}
	for _, n := range names {
		t.Typ[n] = source(v, n, g, max)
	}
	return t
}

func genProject(v vgen.T, universe, resources bool) project {
	p := project{}
	names := []string{"hallon", "fancy-units", "x", "a1", "latex-lookalike"}
	var specs []string
	for _, n := range names[:1+v.W(2, 3, 3, 1, 1)] {
		l := library{NS: v.Pick("preview", "preview", "local"), Name: n}
		seen := map[version]bool{}
		for i, k := 0, 1+v.N(3); i < k; i++ {
			ver := version{uint32(v.N(2)), []uint32{0, 1, 2, 9, 10, 11}[v.N(6)], []uint32{0, 1, 9, 10, 100}[v.N(5)]}
			if v.Chance(1, 10) {
				ver[v.N(3)] = []uint32{255, 256, 65536, 2147483648, 4294967295}[v.N(5)]
			}
			if seen[ver] {
				continue
			}
			seen[ver] = true
			r := release{V: ver, Store: true}
			if universe && l.NS == "preview" && v.Chance(1, 2) {
				r.Universe = true
				r.Store = v.Chance(1, 2)
			}
			r.Link = r.Store && v.Chance(1, 8)
			l.Releases = append(l.Releases, r)
			specs = append(specs, l.spec(ver))
		}
		for i, k := 0, v.N(3); i < k; i++ {
			l.Junk = append(l.Junk, v.Pick("latest", "9.9", "v9.9.9", "9.9.9-rc", "99.0.0!", "77.0.0!", "README!", "a", "9.9.9.9", ".git", "9", "old/98.0.0", "v1/97.0.0", "latest/sub/96.0.0", "95.0/94.0.0!"))
		}
		if r := l.Releases[v.N(len(l.Releases))]; r.Store && v.Chance(1, 8) {
			l.Junk = append(l.Junk, r.V.String()+"/93.0.0")
		}
		p.Libs = append(p.Libs, l)
	}
	for i := range p.Libs {
		for j := range p.Libs[i].Releases {
			entry := v.Pick("lib.typ", "src/lib.typ", "src/entry.typ", "main.typ", oddName(v)+".typ")
			p.Libs[i].Releases[j].Tree = genTree(v, entry, specs, 4, resources, true)
		}
	}
	p.UseRoot = v.Chance(1, 2)
	main := "main.typ"
	if p.UseRoot {
		main = v.Pick("main.typ", "report.typ", "chapters/main.typ", "sub/deep/main.typ")
	}
	p.Tree = genTree(v, main, specs, 7, resources, false)
	p.InProj = v.Chance(1, 3)
	p.RelInput = v.Chance(1, 2)
	p.Out = v.Pick("", "rel", "abs")
	p.Verbose = v.Chance(1, 4)
	p.XDG = v.Chance(1, 2)
	p.Stale = v.Chance(1, 4)
	if universe {
		p.Universe = v.Pick("rel", "abs", "")
		p.InPlace = v.Chance(1, 3)
	} else if v.Chance(1, 4) {
		p.Fonts = map[string][]byte{}
		for _, n := range []string{"fonts/a.ttf", "fonts/sub/b.otf", "more/fonts/c é.ttf", "more/fonts/.hidden", "fonts/LICENSE", "fonts/sub/deep/README.md", "fonts/D.TTC", "more/fonts/.git/config", "fonts/x.ttf/y.txt"} {
			if v.Chance(1, 2) {
				p.Fonts[n] = []byte{0, byte(v.N(256)), 255}[:v.W(1, 1, 1, 4)]
			}
		}
	}
	return p
}

// find returns the release of a specification.
func (p project) find(spec string) (library, release, bool) {
	for _, l := range p.Libs {
		for _, r := range l.Releases {
			if l.spec(r.V) == spec {
				return l, r, true
			}
		}
	}
	return library{}, release{}, false
}

// resolve is the path, from the root, of what a file refers to.
func resolve(from, ref string) string {
	if strings.HasPrefix(ref, "/") {
		return path.Clean(ref)[1:]
	}
	return path.Join(path.Dir(from), ref)
}

// reach is the files of a tree which its main file leads to.
func (t tree) reach() []string {
	seen := map[string]bool{t.Main: true}
	todo := []string{t.Main}
	for i := 0; i < len(todo); i++ {
		for _, x := range t.Typ[todo[i]] {
			if x.K != "import" && x.K != "include" || x.K == "import" && strings.HasPrefix(x.V, "@") {
				continue
			}
			if to := resolve(todo[i], x.V); !seen[to] {
				seen[to] = true
				todo = append(todo, to)
			}
		}
	}
	return todo
}

// specs are the packages which the files of a tree import.
func (t tree) specs() []string {
	var out []string
	for _, f := range t.reach() {
		for _, x := range t.Typ[f] {
			if x.K == "import" && strings.HasPrefix(x.V, "@") {
				out = append(out, x.V)
			}
		}
	}
	return out
}

// files are the names and contents of a tree.
func (t tree) files() map[string]string {
	out := map[string]string{}
	for n, p := range t.Typ {
		out[n] = text(p)
	}
	for n, d := range t.Data {
		out[n] = string(d)
	}
	return out
}

var fontDirs = []string{"fonts", "more/fonts"}

func dataFiles(data map[string][]byte) map[string]string {
	out := map[string]string{}
	for n, d := range data {
		out[n] = string(d)
	}
	return out
}

// site is where a project was written to.
type site struct {
	dir, proj, cwd, out string
	args, env           []string
	stores              map[string]map[string]string // what may not change
}

// write writes a project and its packages.
func (p project) write(dir string) site {
	s := site{dir: dir, proj: filepath.Join(dir, "proj"), cwd: filepath.Join(dir, "cwd"), stores: map[string]map[string]string{}}
	if p.InProj {
		s.cwd = s.proj
	}
	put(s.proj, p.Tree.files())
	put(filepath.Join(dir, "cwd"), nil)
	put(s.cwd, dataFiles(p.Fonts))
	if len(p.Fonts) > 0 {
		s.args = append(s.args, "-font-path", strings.Join(fontDirs, ":"))
		for _, d := range fontDirs {
			put(filepath.Join(s.cwd, d), nil)
		}
	}
	home := filepath.Join(dir, "home")
	cache := filepath.Join(home, ".cache")
	s.env = []string{"HOME=" + home}
	if p.XDG {
		cache = filepath.Join(dir, "xdg")
		s.env = append(s.env, "XDG_CACHE_HOME="+cache)
	}
	put(home, nil)
	universe := filepath.Join(dir, "universe")
	put(universe, nil)
	for _, l := range p.Libs {
		root := filepath.Join(cache, "typst/packages/preview")
		if l.NS == "local" {
			root = filepath.Join(home, ".local/share/typst/packages/local")
		}
		for _, r := range l.Releases {
			files := r.Tree.files()
			files["typst.toml"] = "[package]\nname = " + strconv.Quote(l.Name) + "\nversion = \"" + r.V.String() + "\"\nentrypoint = " + strconv.Quote(r.Tree.Main) + "\n"
			if r.Store {
				to := filepath.Join(root, l.Name, r.V.String())
				if r.Link {
					link(filepath.Join(dir, "home/dev", l.Name+"-"+r.V.String()), to)
				}
				put(to, files)
			}
			if r.Universe {
				put(filepath.Join(universe, "packages/preview", l.Name, r.V.String()), files)
			}
		}
		for _, j := range l.Junk {
			if name, file := strings.CutSuffix(j, "!"); file {
				put(filepath.Join(root, l.Name, filepath.Dir(name)), map[string]string{filepath.Base(name): "junk"})
			} else {
				put(filepath.Join(root, l.Name, j), map[string]string{"typst.toml": "junk"})
			}
		}
	}
	main := filepath.Join(s.proj, p.Tree.Main)
	if p.RelInput {
		main, _ = filepath.Rel(s.cwd, main)
	}
	if p.Verbose {
		s.args = append(s.args, "-v")
	}
	if p.UseRoot {
		root := s.proj
		if p.RelInput {
			root, _ = filepath.Rel(s.cwd, s.proj)
		}
		s.args = append(s.args, "-root", root)
	}
	switch p.Out {
	case "":
		s.out = filepath.Join(s.cwd, "out")
	case "rel":
		s.args = append(s.args, "-out", "o/p")
		s.out = filepath.Join(s.cwd, "o/p")
	case "abs":
		s.out = filepath.Join(dir, "result")
		s.args = append(s.args, "-out="+s.out)
	}
	switch p.Universe {
	case "rel":
		rel, _ := filepath.Rel(s.cwd, universe)
		s.args = append(s.args, "-universe", rel)
	case "abs":
		s.args = append(s.args, "-universe", universe)
	}
	if p.InPlace {
		s.args = append(s.args, "-i")
		s.out = s.proj
	} else if p.Stale {
		put(s.out, map[string]string{p.Tree.Main: strings.Repeat("stale ", 500), "old.txt": "old"})
	}
	s.args = append(s.args, main)
	for _, n := range []string{"home", "xdg", "universe"} {
		s.stores[n] = snapshot(filepath.Join(dir, n))
	}
	return s
}

// check compares what the command left, except for its output.
func (s site) check(p project) error {
	for n, want := range s.stores {
		if err := sameFiles(n, snapshot(filepath.Join(s.dir, n)), want); err != nil {
			return err
		}
	}
	inside := func(dir string) map[string]string {
		files := snapshot(dir)
		for n := range files {
			if strings.HasPrefix(filepath.Join(dir, n), s.out+"/") {
				delete(files, n)
			}
		}
		return files
	}
	want := dataFiles(p.Fonts)
	if p.InProj {
		maps.Copy(want, p.Tree.files())
	}
	if !p.InPlace {
		files := p.Tree.files()
		if p.InProj {
			files = want
		}
		if err := sameFiles("project", inside(s.proj), files); err != nil {
			return err
		}
	}
	if !p.InProj {
		if err := sameFiles("working directory", inside(s.cwd), want); err != nil {
			return err
		}
	}
	return nil
}

// used is the packages which those of the given are used by lead to, with
// them, if an import of which follow holds leads on.
func (p project) used(specs []string, follow func(spec string) bool) map[string]bool {
	used := map[string]bool{}
	for todo := specs; len(todo) > 0; {
		spec := todo[0]
		todo = todo[1:]
		if used[spec] || !follow(spec) {
			continue
		}
		used[spec] = true
		_, r, _ := p.find(spec)
		todo = append(slices.Clone(todo), r.Tree.specs()...)
	}
	return used
}

// lost is a file of a package which is taken away, or which is not UTF-8.
type lost struct {
	Spec, File string
	Bad        bool
}

// lose picks a Typst file of one of the packages.
func (p project) lose(v vgen.T, used map[string]bool) lost {
	specs := slices.Sorted(maps.Keys(used))
	if len(specs) == 0 {
		return lost{}
	}
	spec := specs[v.N(len(specs))]
	_, r, _ := p.find(spec)
	files := r.Tree.reach()
	return lost{spec, files[v.N(len(files))], v.Chance(1, 3)}
}

// without is the project without the file.
func (p project) without(l lost) project {
	p.Libs = slices.Clone(p.Libs)
	for i, lib := range p.Libs {
		lib.Releases = slices.Clone(lib.Releases)
		for j, r := range lib.Releases {
			if lib.spec(r.V) == l.Spec {
				lib.Releases[j].Tree.Typ = r.Tree.without(l.File, l.Bad)
			}
		}
		p.Libs[i] = lib
	}
	return p
}

// without is the Typst files of the tree without the given.
func (t tree) without(file string, bad bool) map[string][]piece {
	typ := maps.Clone(t.Typ)
	if src := typ[file]; bad {
		typ[file] = []piece{{T: binary(text(src))}}
	} else {
		delete(typ, file)
	}
	return typ
}
