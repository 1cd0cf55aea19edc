package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

func init() {
	register(&Prop{ID: "C30", MinEv: 300, Par: 4,
		Rule: "one evaluation per call through a generated client, or per service given to the generator; distinct = (kinds of input and output, main or sub service, what went wrong) and (reason for rejection)",
		Notes: []string{"random service packages are written into a scratch module, given to the generator of the working tree, and what it writes is compiled and called over loopback; what the service saw and what the client returned are compared with direct calls",
			"services with unsupported signatures must be refused with nothing written; types the generated file cannot name (unexported, unnamed, of package main) must be refused or supported"},
		Jobs: []JobSpec{
			{Name: "generate", Quick: 4, Deep: 40, Fn: c30generate},
			{Name: "refuse", Quick: 1, Deep: 4, Fn: c30refuse},
		}})
}

type gtype struct {
	pkg  *gpkg // nil for basic types
	name string
	kind string
	zero string
	out  bool
}

type gpkg struct{ path, name, alias string }

type gmethod struct {
	name    string
	in, out gtype
}

type gservice struct {
	typ     string // type in package svc
	ptr     bool
	ns      string // as given to the generator
	methods []gmethod
}

type gen30 struct {
	c    *C
	r    *Rng
	root string
	pkgs []*gpkg
	ins  []gtype
	outs []gtype
	n    int
}

func (g *gen30) write(path, format string, a ...interface{}) {
	p := filepath.Join(g.root, path)
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		g.fail("mkdir", err)
	}
	if err := os.WriteFile(p, []byte(fmt.Sprintf(format, a...)), 0o644); err != nil {
		g.fail("write", err)
	}
}

func (g *gen30) fail(what string, err error) {
	fmt.Fprintln(os.Stderr, what, err)
	g.c.mu.Lock()
	g.c.incon = what + ": " + fmt.Sprint(err)
	g.c.mu.Unlock()
	g.c.Abort()
}

// run runs a command in a directory of the module.
func (g *gen30) run(dir string, limit time.Duration, name string, args ...string) (out string, err error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = filepath.Join(g.root, dir)
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off")
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	if err := cmd.Start(); err != nil {
		g.fail("run", err)
	}
	done := make(chan struct{})
	go func() { err = cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		g.fail(fmt.Sprint(name, args), fmt.Errorf("not done after %v", limit))
	}
	return b.String(), err
}

const (
	rtPath   = "qverif/c30rt"
	genPath  = "github.com/zhiqiangxu/qrpc/codegen"
	buildMax = 240 * time.Second
)

func newGen30(c *C) *gen30 {
	g := &gen30{c: c, r: c.Rng}
	tmp := os.Getenv("QV_TMP")
	if tmp == "" {
		tmp = "."
	}
	var err error
	if g.root, err = os.MkdirTemp(tmp, "c30"); err != nil {
		g.fail("mkdir", err)
	}
	g.root, _ = filepath.Abs(g.root)
	h := os.Getenv("QV_H")
	mod, err := os.ReadFile(filepath.Join(h, "go.mod"))
	sum, err2 := os.ReadFile(filepath.Join(h, "go.sum"))
	if err != nil || err2 != nil {
		g.fail("go.mod", err)
	}
	m := strings.Replace(string(mod), "module qverif", "module x.test/m", 1) + "\nrequire qverif v0.0.0\nreplace qverif => " + h + "\n"
	g.write("go.mod", "%s", m)
	g.write("go.sum", "%s", sum)
	return g
}

var fieldTypes = []string{"string", "int", "int64", "uint8", "uint64", "bool", "float64", "float32", "[]byte", "[]string", "map[string]int", "map[int64]string", "*int", "*string", "[]*int32",
	"[3]int", "struct{ A int; B []string }", "interface{}", "map[string]interface{}", "[][]byte", "map[string][]int"}

func (g *gen30) fields() string {
	var s strings.Builder
	for i, n := 0, g.r.Intn(6); i < n; i++ {
		t := fieldTypes[g.r.Intn(len(fieldTypes))]
		tag := ""
		if g.r.P(1, 3) {
			tag = fmt.Sprintf("`json:\"f_%d\"`", i)
		}
		fmt.Fprintf(&s, "\tF%d %s %s\n", i, t, tag)
	}
	return s.String()
}

// types writes a package of types.
func (g *gen30) types(path, name string) {
	p := &gpkg{path: "x.test/m/" + path, name: name, alias: fmt.Sprint("t", len(g.pkgs))}
	g.pkgs = append(g.pkgs, p)
	var s strings.Builder
	fmt.Fprintf(&s, "package %s\n\nimport rt %q\n\nvar _ rt.Picky\n\n", name, rtPath)
	add := func(out bool, kind, format string, a ...interface{}) {
		g.n++
		n := fmt.Sprintf("%s%d", []string{"Req", "Resp", "T", "Ünï", "X_y"}[g.r.Intn(5)], g.n)
		body := strings.Replace(fmt.Sprintf(format, a...), "NAME", n, -1)
		s.WriteString(body)
		t := gtype{pkg: p, name: n, kind: kind, out: out}
		switch kind {
		case "string":
			t.zero = `""`
		case "slice", "map":
			t.zero = "nil"
		case "generic":
			t.name += "[int]"
			t.zero = "{}"
		default:
			t.zero = "{}"
		}
		if out {
			g.outs = append(g.outs, t)
		}
		g.ins = append(g.ins, t)
	}
	const setErr = "func (o *NAME) SetError(err error) { o.E = err.Error() }\nfunc (o *NAME) ErrText() string { return o.E }\n\n"
	const marsh = "func (o *NAME) Marshal() ([]byte, error) { return rt.Pack(o.p, o.b, o.s, o.E) }\nfunc (o *NAME) Unmarshal(b []byte) error { return rt.Unpack(b, &o.p, &o.b, &o.s, &o.E) }\n\n"
	for _, k := range g.r.Perm(13)[:3+g.r.Intn(6)] {
		switch k {
		case 0:
			add(false, "json", "type NAME struct {\n%s\tP rt.Picky\n}\n\n", g.fields())
		case 1:
			add(true, "json", "type NAME struct {\n%s\tE string `json:\"err\"`\n\tP rt.Picky\n}\n\n"+setErr, g.fields())
		case 2:
			add(true, "marshaler", "type NAME struct {\n\tp rt.Picky\n\tb []byte\n\ts, E string\n}\n\n"+setErr+marsh)
		case 3:
			add(false, "value marshaler", "type NAME struct {\n\tp rt.Picky\n\tb []byte\n\ts, E string\n}\n\n"+strings.Replace(marsh, "o *NAME) Marshal", "o NAME) Marshal", 1))
		case 4: // no Unmarshal: JSON
			add(true, "half marshaler", "type NAME struct {\n%s\tE string\n\tP rt.Picky\n}\n\n"+setErr+"func (o *NAME) Marshal() ([]byte, error) { panic(\"not a Marshaler\") }\n\n", g.fields())
		case 5:
			add(false, "string", "type NAME string\n\n")
		case 6:
			add(true, "map", "type NAME map[string]string\n\nfunc (o *NAME) SetError(err error) { *o = NAME{\"err\": err.Error()} }\nfunc (o *NAME) ErrText() string { return (*o)[\"err\"] }\n\n")
		case 7:
			add(false, "slice", "type NAME []struct{ A int; B map[string]bool }\n\n")
		case 8:
			add(true, "generic", "type NAME[V any] struct {\n\tV V\n\tW []V\n\tE string\n}\n\nfunc (o *NAME[V]) SetError(err error) { o.E = err.Error() }\nfunc (o *NAME[V]) ErrText() string { return o.E }\n\n")
		case 9:
			add(true, "embedded", "type baseNAME struct {\n\tE string\n\tCode int\n}\n\nfunc (o *baseNAME) SetError(err error) { o.E, o.Code = err.Error(), 1 }\nfunc (o *baseNAME) ErrText() string { return o.E }\n\ntype BaseNAME = baseNAME\ntype NAME struct {\n\tBase BaseNAME\n%s\tP rt.Picky\n}\n\nfunc (o *NAME) SetError(err error) { o.Base.SetError(err) }\nfunc (o *NAME) ErrText() string { return o.Base.ErrText() }\n\n", g.fields())
		case 10:
			add(true, "promoted", "type InNAME struct {\n\tp rt.Picky\n\tb []byte\n\ts, E string\n}\n\n"+strings.Replace(setErr+marsh, "NAME", "InNAME", -1)+"type NAME struct{ InNAME }\n\n")
		case 11: // the wrong signatures: JSON
			add(false, "not marshaler", "type NAME struct {\n%s}\n\nfunc (o *NAME) Marshal() []byte { panic(\"not a Marshaler\") }\nfunc (o *NAME) Unmarshal([]byte) { panic(\"not a Marshaler\") }\n\n", g.fields())
		case 12:
			add(false, "recursive", "type NAME struct {\n\tL, R *NAME\n\tM map[string]NAME\n%s}\n\n", g.fields())
		}
	}
	s.WriteString("type Ctx struct{}\n")
	g.write(path+"/types.go", "%s", s.String())
}

func (t gtype) String() string {
	if t.pkg == nil {
		return t.name
	}
	return t.pkg.alias + "." + t.name
}

// Zero is an expression for the zero value.
func (t gtype) Zero() string {
	switch t.zero {
	case "{}":
		return t.String() + "{}"
	}
	return t.String() + "(" + t.zero + ")"
}

func (g *gen30) imports() string {
	var s strings.Builder
	for _, p := range g.pkgs {
		fmt.Fprintf(&s, "\t%s %q\n", p.alias, p.path)
	}
	return s.String()
}

func (g *gen30) useAll() string {
	var s strings.Builder
	for _, p := range g.pkgs {
		fmt.Fprintf(&s, "var _ %s.Ctx\n", p.alias)
	}
	return s.String()
}

var basics = []gtype{{name: "string", zero: `""`}, {name: "int", zero: "0"}, {name: "int64", zero: "0"}, {name: "uint8", zero: "0"}, {name: "bool", zero: "false"}, {name: "float64", zero: "0"}, {name: "uint", zero: "0"}, {name: "int32", zero: "0"}}

var methodNames = []string{"Get", "Put", "Request", "URL", "Get_X", "HelloWorld", "String", "Marshal", "Unmarshal", "Error", "Register", "RegisterSub", "Mux", "Close", "X", "Äpfel", "Input", "Output", "Context", "New", "Init", "SetError", "Client", "Do1", "CC", "Call", "Err", "Main", "GoString", "Subscribe"}

func (g *gen30) service(typ, ns string) gservice {
	s := gservice{typ: typ, ns: ns, ptr: g.r.P(1, 2)}
	perm := g.r.Perm(len(methodNames))
	for i, n := 0, g.r.Pick(1, 1, 2, 3, 4, 6); i < n; i++ {
		m := gmethod{name: methodNames[perm[i]], in: g.ins[g.r.Intn(len(g.ins))], out: g.outs[g.r.Intn(len(g.outs))]}
		if g.r.P(1, 6) {
			m.in = basics[g.r.Intn(len(basics))]
		}
		s.methods = append(s.methods, m)
	}
	return s
}

var (
	serviceNames = []string{"hello", "Hello", "hello_world", "X", "foo_Bar", "h2", "json", "qrpc", "Client", "service", "s", "type", "HTTP", "new", "m"}
	nsNames      = []string{"sub", "user_info", "A", "Service", "ns2", "Client", "b_c", "Mux", "service_mux", "Request"}
	typePkgs     = [][2]string{{"t/a/model", "model"}, {"t/b/model", "model"}, {"t/types", "types"}, {"t/x-y", "xy"}, {"t/v2", "lib"}, {"t/yaml.v3", "yaml"}, {"t/json", "json"}, {"t/qrpc", "qrpc"}, {"t/codegen", "codegen"}, {"t/context", "context"},
		{"t/fmt", "fmt"}, {"t/ctx", "ctx"}, {"t/err", "err"}, {"t/m", "m"}, {"t/s", "s"}, {"t/ns", "ns"}, {"t/ss", "ss"}, {"t/input", "input"}, {"t/output", "output"}, {"t/string", "string"}, {"t/byte", "byte"}, {"t/error", "error"},
		{"t/range", "rng"}, {"t/3d", "threed"}, {"t/bytes", "inBytes"}, {"t/inBytes", "inBytes"}, {"t/c", "c"}, {"t/cc", "cc"}, {"t/init", "initpkg"}, {"t/nil", "nilpkg"}, {"t/panic", "panicpkg"}, {"t/int", "int"}, {"t/Model", "model"}, {"t/addrs", "addrs"}, {"t/conf", "conf"}, {"t/outBytes", "ob"}, {"t/ssInterface", "si"}, {"t/mux", "mux"}, {"t/make", "makepkg"}}
	outDirs = []string{"out", "qrpc", "json", "codegen", "context", "svc", "model", "x", "pkg_y", "v2"}
)

func (g *gen30) goFiles(dir string) []string {
	fs, err := filepath.Glob(filepath.Join(g.root, dir, "*.go"))
	if err != nil {
		g.fail("glob", err)
	}
	return fs
}

func c30generate(c *C) {
	g := newGen30(c)
	defer os.RemoveAll(g.root)
	r := g.r
	perm := r.Perm(len(typePkgs))
	for _, k := range perm[:6+r.Intn(6)] {
		g.types(typePkgs[k][0], typePkgs[k][1])
	}
	for len(g.outs) == 0 || len(g.ins) < 3 {
		g.types(fmt.Sprintf("t/more%d", len(g.pkgs)), "more")
	}

	type unit struct {
		name, dir, pkg string
		cmd, errCmd    int
		def            bool
		main           *gservice
		subs           []gservice
	}
	var (
		units    []unit
		svc, gen strings.Builder
	)
	fmt.Fprintf(&svc, "package svc\n\nimport (\n\t\"context\"\n\trt %q\n%s)\n\n%s\n", rtPath, g.imports(), g.useAll())
	fmt.Fprintf(&gen, "package main\n\nimport (\n\t\"os\"\n\t%q\n\t\"github.com/zhiqiangxu/qrpc\"\n\t\"x.test/m/impl/svc\"\n)\n\nfunc chdir(d string) {\n\tif err := os.Chdir(os.Args[1]+\"/\"+d); err != nil {\n\t\tpanic(err)\n\t}\n}\n\nvar _ qrpc.Cmd\n\nfunc main() {\n", genPath)
	emit := func(s gservice) {
		recv := s.typ
		if s.ptr {
			recv = "*" + recv
		}
		fmt.Fprintf(&svc, "type %s struct{ n int }\n\n", s.typ)
		for _, m := range s.methods {
			fmt.Fprintf(&svc, "func (sv %s) %s(ctx context.Context, in %s) (out %s) {\n\trt.Called(%q, %q, %q, ctx, in, &out)\n\treturn\n}\n\n", recv, m.name, m.in, m.out, s.typ, s.ns, m.name)
		}
		fmt.Fprintf(&svc, "func (sv %s) unexported(x int) {}\n\n", recv)
	}
	val := func(s gservice) string {
		if s.ptr {
			return "&svc." + s.typ + "{}"
		}
		return "svc." + s.typ + "{}"
	}
	nUnits := map[string]int{"quick": 8, "thorough": 16}[tier()]
	for i := 0; i < nUnits; i++ {
		base := outDirs[r.Intn(len(outDirs))]
		u := unit{name: serviceNames[r.Intn(len(serviceNames))], dir: fmt.Sprintf("gen/u%d/%s", i, base), pkg: base, cmd: 1 + r.Intn(60000), def: r.P(1, 3)}
		u.errCmd = u.cmd + 1 + r.Intn(5000)
		if u.def {
			u.cmd, u.errCmd = 10000, 10001
		}
		nsub := r.Pick(0, 0, 1, 1, 2, 3)
		if nsub == 0 || r.P(4, 5) {
			s := g.service(fmt.Sprintf("Main%d", i), "")
			u.main = &s
			emit(s)
		}
		np := r.Perm(len(nsNames))
		for j := 0; j < nsub; j++ {
			s := g.service(fmt.Sprintf("Sub%d_%d", i, j), nsNames[np[j]])
			u.subs = append(u.subs, s)
			emit(s)
		}
		units = append(units, u)
		os.MkdirAll(filepath.Join(g.root, u.dir), 0o755)
		fmt.Fprintf(&gen, "\t{\n\t\tchdir(%q)\n", u.dir)
		if u.def {
			fmt.Fprintf(&gen, "\t\tg := codegen.New(%q)\n", u.name)
		} else {
			fmt.Fprintf(&gen, "\t\tg := codegen.NewWithCmd(%q, %d, %d)\n", u.name, u.cmd, u.errCmd)
		}
		if u.main != nil {
			fmt.Fprintf(&gen, "\t\tg.Register(%s)\n", val(*u.main))
		}
		for _, s := range u.subs {
			fmt.Fprintf(&gen, "\t\tg.RegisterSub(%q, %s)\n", s.ns, val(s))
		}
		fmt.Fprintf(&gen, "\t\tg.Generate()\n\t\tg.Output()\n\t}\n")
	}
	gen.WriteString("}\n")
	g.write("impl/svc/svc.go", "%s", svc.String())
	g.write("gen/main.go", "%s", gen.String())
	if out, err := g.run(".", buildMax, "go", "build", "-o", "generate", "./gen"); err != nil {
		g.fail("building the generator program", fmt.Errorf("%v: %s", err, out))
	}
	if out, err := g.run(".", buildMax, "./generate", g.root); err != nil {
		if len(out) > 6000 {
			out = out[:2000] + " ... " + out[len(out)-4000:]
		}
		c.Violate("generate", "the generator refused a supported service: %v: %s", err, out)
		return
	}
	// what is generated replaces what an earlier run left, which was longer
	for _, u := range units[:len(units)/2] {
		for _, p := range g.goFiles(u.dir) {
			f, err := os.OpenFile(p, os.O_WRONLY|os.O_APPEND, 0)
			if err == nil {
				_, err = f.WriteString("\nfunc left() { over from before }\n")
				f.Close()
			}
			if err != nil {
				g.fail("writing", err)
			}
		}
		c.Count("generated_again", 1)
	}
	if out, err := g.run(".", buildMax, "./generate", g.root); err != nil {
		c.Violate("generate", "the generator refused a service it had generated before: %v: %s", err, out)
		return
	}

	// names of what was generated
	var test strings.Builder
	fmt.Fprintf(&test, "package main\n\nimport (\n\t\"context\"\n\trt %q\n\t\"github.com/zhiqiangxu/qrpc\"\n\t\"x.test/m/impl/svc\"\n%s", rtPath, g.imports())
	for i, u := range units {
		fmt.Fprintf(&test, "\tg%d \"x.test/m/%s\"\n", i, u.dir)
	}
	fmt.Fprintf(&test, ")\n\n%s\nfunc main() {\n", g.useAll())
	for _, t := range append(append([]gtype(nil), g.ins...), g.outs...) {
		fmt.Fprintf(&test, "\trt.Kind(%s, %q)\n", t.Zero(), t.kind)
	}
	fmt.Fprintf(&test, "\trt.Run(%d, []rt.Service{\n", int64(r.Uint64()>>1))
	for i, u := range units {
		svcName := camel(u.name)
		fmt.Fprintf(&test, "\t\t{Name: %q, RPCCmd: %d,\n\t\t\tMux: func() *qrpc.ServeMux {\n\t\t\t\tm := g%d.New%sServiceMux()\n", u.name, u.cmd, i, svcName)
		if u.main != nil {
			fmt.Fprintf(&test, "\t\t\t\tm.Register(%s)\n", val(*u.main))
		}
		for _, s := range u.subs {
			fmt.Fprintf(&test, "\t\t\t\tm.RegisterSub(%q, %s)\n", camel(s.ns), val(s))
		}
		fmt.Fprintf(&test, "\t\t\t\treturn m.Mux()\n\t\t\t},\n\t\t\tBare: func() *qrpc.ServeMux { return g%d.New%sServiceMux().Mux() },\n", i, svcName)
		fmt.Fprintf(&test, "\t\t\tClient: func(addrs []string, conf qrpc.ConnectionConfig) interface{} { return g%d.New%sClient(addrs, conf) },\n\t\t\tMethods: []rt.Method{\n", i, svcName)
		for _, s := range append(append([]gservice(nil), u.subs...), func() []gservice {
			if u.main != nil {
				return []gservice{*u.main}
			}
			return nil
		}()...) {
			for _, m := range s.methods {
				get := fmt.Sprintf("cl.(g%d.%sClient)", i, svcName)
				if s.ns != "" {
					get += "." + camel(s.ns) + "Client()"
				}
				fmt.Fprintf(&test, "\t\t\t\t{%q, %q, %q, %s, %s, func(cl interface{}, ctx context.Context, in interface{}) interface{} { return %s.%s(ctx, in.(%s)) }},\n", s.typ, s.ns, m.name, m.in.Zero(), m.out.Zero(), get, m.name, m.in)
			}
		}
		fmt.Fprintf(&test, "\t\t\t}},\n")
	}
	fmt.Fprintf(&test, "\t})\n}\n")
	g.write("test/main.go", "%s", test.String())
	if out, err := g.run(".", buildMax, "go", "build", "-o", "runtest", "./test"); err != nil {
		// is it what was generated?
		bad := ""
		for i, u := range units {
			if o, err := g.run(".", buildMax, "go", "build", "./"+u.dir); err != nil {
				bad += fmt.Sprintf("unit %d (%q, package %s): %s\n", i, u.name, u.pkg, o)
			}
		}
		c.Violate("compile", "what was generated does not compile, or not with its service: %v: %s%s", err, bad, out)
		if os.Getenv("QV_KEEP") != "" {
			os.Rename(g.root, "/tmp/c30keep")
		}
		return
	}
	for _, u := range units {
		c.Eval("generated")
		c.Sample("generated and compiled: service %q in package %s, %d sub services", u.name, u.pkg, len(u.subs))
	}
	out, err := g.run(".", buildMax, "./runtest")
	done := false
	sc := bufio.NewScanner(strings.NewReader(out))
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		l := sc.Text()
		switch {
		case strings.HasPrefix(l, "EVAL "):
			c.Eval(l[5:])
		case strings.HasPrefix(l, "SAMPLE "):
			c.Sample("%s", l[7:])
		case strings.HasPrefix(l, "VIOLATE "):
			var v struct{ Kind, Text string }
			json.Unmarshal([]byte(l[8:]), &v)
			c.Violate(v.Kind, "%s", v.Text)
		case l == "DONE":
			done = true
		}
	}
	if !done && !c.Violated() {
		if len(out) > 6000 {
			out = out[len(out)-6000:]
		}
		c.Violate("crash", "calls through the generated client and mux ended with %v: %s", err, out)
	}
	if os.Getenv("QV_KEEP") != "" {
		os.Rename(g.root, "/tmp/c30keep")
	}
}

// camel is how the generator names things: letters after underscores and the first become upper case.
func camel(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		ch := s[i]
		lower := func(k int) bool { return k < len(s) && s[k] >= 'a' && s[k] <= 'z' }
		switch {
		case ch == '_' && i == 0:
			b.WriteByte('X')
		case ch == '_' && lower(i+1):
		case lower(i) && (i == 0 || s[i-1] == '_' || s[i-1] >= '0' && s[i-1] <= '9'):
			b.WriteByte(ch - 32)
		default:
			b.WriteByte(ch)
		}
	}
	return b.String()
}

// c30refuse: what cannot be generated is refused, and nothing is written.
func c30refuse(c *C) {
	g := newGen30(c)
	defer os.RemoveAll(g.root)
	g.write("t/t.go", `package t

import "context"

type In struct{ A int }
type Out struct{ E string }

func (o *Out) SetError(err error) { o.E = err.Error() }

type G[T any] struct{ V T; E string }

func (o *G[T]) SetError(err error) { o.E = err.Error() }

type lower struct{ A int }
type lowerOut struct{ E string }

func (o *lowerOut) SetError(err error) { o.E = err.Error() }

type NoErr struct{ E string }
type BadErr struct{ E string }

func (o *BadErr) SetError(err string) { o.E = err }

type BadErr2 struct{ E string }

func (o *BadErr2) SetError(err error) bool { o.E = err.Error(); return true }

type Base struct{ E string }

func (o *Base) SetError(err error) { o.E = err.Error() }

type Ctx interface{ context.Context }
type PCtx struct{ context.Context }

type UnexpIn struct{}

func (UnexpIn) M(ctx context.Context, in lower) (out Out) { return }

type UnexpOut struct{}

func (UnexpOut) M(ctx context.Context, in In) (out lowerOut) { return }
`)
	sigs := []struct {
		sig  string
		must bool // must be refused
	}{
		{"(ctx context.Context, in t.In) (out t.Out)", false}, // refused never: the control
		{"()", true}, {"() (out t.Out)", true}, {"(ctx context.Context) (out t.Out)", true}, {"(in t.In) (out t.Out)", true}, {"(in t.In, ctx context.Context) (out t.Out)", true},
		{"(ctx context.Context, in t.In, in2 t.In) (out t.Out)", true}, {"(a string, in t.In) (out t.Out)", true}, {"(a interface{}, in t.In) (out t.Out)", true}, {"(a context.CancelFunc, in t.In) (out t.Out)", true},
		{"(ctx context.Context, in t.In)", true}, {"(ctx context.Context, in t.In) error", true}, {"(ctx context.Context, in t.In) (out t.Out, err error)", true}, {"(ctx context.Context, in t.In) (a, b t.Out)", true},
		{"(ctx context.Context, in t.In) (out t.NoErr)", true}, {"(ctx context.Context, in t.In) (out t.BadErr)", true}, {"(ctx context.Context, in t.In) (out t.BadErr2)", true}, {"(ctx context.Context, in t.In) (out string)", true},
		{"(ctx context.Context, in t.In) (out *t.Out)", true}, {"(ctx context.Context, in t.In) (out []t.Out)", true}, {"(ctx context.Context, in t.In) (out interface{})", true}, {"(ctx context.Context, in t.In) (out codegen.Output)", true},
		{"(ctx t.PCtx, in t.In) (out t.Out)", true}, {"(ctx *t.PCtx, in t.In) (out t.Out)", true}, {"(ctx t.Ctx, in t.In) (out t.Out)", false},
		{"(ctx context.Context, in ...t.In) (out t.Out)", false}, {"(ctx context.Context, in *t.In) (out t.Out)", false}, {"(ctx context.Context, in []t.In) (out t.Out)", false}, {"(ctx context.Context, in []byte) (out t.Out)", false},
		{"(ctx context.Context, in map[string]t.In) (out t.Out)", false}, {"(ctx context.Context, in struct{ A int }) (out t.Out)", false}, {"(ctx context.Context, in [2]int) (out t.Out)", false}, {"(ctx context.Context, in func()) (out t.Out)", false},
		{"(ctx context.Context, in chan int) (out t.Out)", false}, {"(ctx context.Context, in interface{}) (out t.Out)", false}, {"(ctx context.Context, in struct{}) (out t.Out)", false},
		{"(ctx context.Context, in t.In) (out struct{ t.Base })", false}, {"(ctx context.Context, in t.In) (out struct{ t.Base; A int })", false},
		{"(ctx context.Context, in t.G[int]) (out t.G[string])", false}, {"(ctx context.Context, in t.G[t.In]) (out t.Out)", false}, {"(ctx context.Context, in t.In) (out t.G[t.In])", false}, {"(ctx context.Context, in t.G[[]t.In]) (out t.Out)", false},
		{"(ctx context.Context, in t.G[map[string]t.In]) (out t.Out)", false}, {"(ctx context.Context, in t.G[struct{ A int }]) (out t.Out)", false}, {"(ctx context.Context, in t.G[*int]) (out t.Out)", false}, {"(ctx context.Context, in t.G[t.G[t.In]]) (out t.Out)", false},
		{"(ctx context.Context, in Own) (out t.Out)", false}, {"(ctx context.Context, in t.In) (out OwnOut)", false}, {"(ctx context.Context, in own) (out t.Out)", false},
		{"(ctx context.Context, in error) (out t.Out)", false}, {"(ctx context.Context, in context.Context) (out t.Out)", false}, {"(ctx context.Context, in codegen.Output) (out t.Out)", false},
	}
	type caze struct {
		what, val, reg string
		must           bool
	}
	var (
		cases []caze
		decl  strings.Builder
	)
	for i, s := range sigs {
		for j, m := range []string{"func (SN) MSIG { panic(1) }", "func (*SN) MSIG { panic(1) }"} {
			if j == 1 && c.Rng.P(1, 2) {
				continue
			}
			n := i*2 + j
			decl.WriteString(strings.NewReplacer("SN", fmt.Sprint("S", n), "SIG", s.sig).Replace("type SN struct{}\n\nfunc (*SN) Fine(ctx context.Context, in t.In) (out t.Out) { return }\n" + m + "\n\n"))
			v := fmt.Sprintf("&S%d{}", n)
			cases = append(cases, caze{s.sig, v, fmt.Sprintf("g.Register(%s)", v), s.must})
			cases = append(cases, caze{"sub " + s.sig, v, fmt.Sprintf("g.RegisterSub(\"sub\", %s)", v), s.must})
		}
	}
	ok := "&Fine{}"
	decl.WriteString("type Fine struct{}\n\nfunc (*Fine) Fine(ctx context.Context, in t.In) (out t.Out) { return }\n\ntype None struct{}\n\nfunc (None) lower() {}\n\ntype WithLock struct {\n\tsync.Mutex\n\tFine\n}\n\n" +
		"type Clash struct{}\n\nfunc (Clash) SubClient(ctx context.Context, in t.In) (out t.Out) { return }\n\n")
	for _, x := range []caze{
		{"empty ns", ok, `g.RegisterSub("", &Fine{})`, true}, {"sub twice", ok, `g.RegisterSub("a", &Fine{}); g.RegisterSub("a", &Fine{})`, true}, {"sub twice after naming", ok, `g.RegisterSub("a_b", &Fine{}); g.RegisterSub("aB", &Fine{})`, true},
		{"main twice", ok, `g.Register(&Fine{}); g.Register(&Fine{})`, true}, {"no methods", ok, `g.Register(None{})`, true}, {"no methods in a sub", ok, `g.Register(&Fine{}); g.RegisterSub("x", None{})`, true}, {"no methods by value", ok, `g.Register(Fine{})`, true},
		{"embedded lock", ok, `g.Register(&WithLock{})`, true}, {"a method named like a sub service's client", ok, `g.Register(Clash{}); g.RegisterSub("sub", &Fine{})`, false}, {"bad ns", ok, `g.RegisterSub("a-b", &Fine{})`, false}, {"ns with a blank", ok, `g.RegisterSub("a b", &Fine{})`, false},
		{"ns with a digit", ok, `g.RegisterSub("1a", &Fine{})`, false}, {"ns with a quote", ok, `g.RegisterSub("a\"b", &Fine{})`, false}, {"unexported input", ok, "g.Register(t.UnexpIn{})", false}, {"unexported output", ok, "g.Register(t.UnexpOut{})", false},
	} {
		cases = append(cases, x)
	}
	names := []string{"hello", "a-b", "1a", "a b", "", "é", "x.y"}
	var sw strings.Builder
	for i, x := range cases {
		name := "hello"
		fmt.Fprintf(&sw, "\tcase %d:\n\t\tg := codegen.New(%q)\n\t\t%s\n\t\tg.Generate()\n\t\tg.Output()\n", i, name, x.reg)
	}
	for i, n := range names[1:] {
		fmt.Fprintf(&sw, "\tcase %d:\n\t\tg := codegen.New(%q)\n\t\tg.Register(&Fine{})\n\t\tg.Generate()\n\t\tg.Output()\n", len(cases)+i, n)
	}
	total := len(cases) + len(names) - 1
	g.write("gen/main.go", `package main

import (
	"context"
	"fmt"
	"os"
	"strconv"
	"sync"

	"github.com/zhiqiangxu/qrpc/codegen"
	"x.test/m/t"
)

var _ sync.Mutex

type Own struct{ A int }
type own struct{ A int }
type OwnOut struct{ E string }

func (o *OwnOut) SetError(err error) { o.E = err.Error() }

%s

func run(i int) {
	switch i {
%s
	}
}

func main() {
	for i := 0; i < %d; i++ {
		func() {
			defer func() {
				if e := recover(); e != nil {
					fmt.Printf("\nREFUSED %%d\n", i)
				} else {
					fmt.Printf("\nACCEPTED %%d\n", i)
				}
			}()
			d := os.Args[1] + "/o/u" + strconv.Itoa(i) + "/p"
			os.MkdirAll(d, 0o755)
			if os.Chdir(d) != nil {
				os.Exit(3)
			}
			run(i)
		}()
	}
}
`, decl.String(), sw.String(), total)
	if out, err := g.run(".", buildMax, "go", "build", "-o", "generate", "./gen"); err != nil {
		g.fail("building the generator program", fmt.Errorf("%v: %s", err, out))
	}
	out, err := g.run(".", buildMax, "./generate", g.root)
	if err != nil {
		c.Violate("crash", "the generator program: %v: %s", err, brief([]byte(out)))
		return
	}
	for i := 0; i < total; i++ {
		acc := strings.Contains(out, fmt.Sprintf("\nACCEPTED %d\n", i))
		x := caze{must: false}
		if i < len(cases) {
			x = cases[i]
		} else {
			x.what = fmt.Sprintf("service name %q", names[1+i-len(cases)])
		}
		dir := fmt.Sprintf("o/u%d/p", i)
		files, _ := os.ReadDir(filepath.Join(g.root, dir))
		switch {
		case !acc && len(files) > 0:
			c.Violate("refused-written", "%s: refused, but %s was written", x.what, files[0].Name())
		case !acc && i < 2:
			c.Violate("generate", "%s: refused", x.what)
		case acc && x.must:
			c.Violate("accepted", "%s: not refused", x.what)
		case acc && len(files) != 1:
			c.Violate("accepted", "%s: accepted, but %d files were written", x.what, len(files))
		case acc:
			// then it must be right: it compiles, and the service can be registered
			if o, err := g.run(".", buildMax, "go", "build", "./"+dir); err != nil {
				c.Violate("compile", "%s: accepted, but what was generated does not compile: %s", x.what, o)
			} else if i < len(cases) && strings.HasPrefix(x.what, "(") {
				g.write(fmt.Sprintf("o/u%d/use/use.go", i), "package use\n\nimport (\n\t\"context\"\n\t\"github.com/zhiqiangxu/qrpc/codegen\"\n\tp \"x.test/m/%s\"\n\t\"x.test/m/t\"\n)\n\nvar _ codegen.Output\n\ntype S struct{}\n\nfunc (S) Fine(ctx context.Context, in t.In) (out t.Out) { return }\nfunc (S) M%s { panic(1) }\n\nvar _ p.HelloService = S{}\n", dir, x.what)
				if o, err := g.run(".", buildMax, "go", "build", fmt.Sprintf("./o/u%d/use", i)); err != nil {
					c.Violate("compile", "%s: accepted, but its service cannot be registered: %s", x.what, o)
				}
			}
		}
		c.Eval(fmt.Sprint("refuse ", acc, " ", x.what))
		c.Count(fmt.Sprint("accepted=", acc), 1)
	}
}
