package sadl

import (
	"os"
	"path/filepath"
)

// C09: generated files.

//govc:target (*sadl.Generator).Begin (*sadl.Generator).Emit (*sadl.Generator).End
func verify_C09_emit(texts []string) {
	gen := &Generator{}
	gen.Begin()
	want := ""
	for _, s := range texts {
		gen.Emit(s)
		want += s
	}
	vEnsures("no error", gen.Err == nil)
	vEnsures("exactly the emitted text, in order", gen.End() == want)
}

//govc:target (*sadl.Generator).Begin (*sadl.Generator).Emit (*sadl.Generator).End
func verify_C09_again(a, b, c string) {
	gen := &Generator{}
	gen.Emit(a)
	vEnsures("nothing before begin", gen.End() == "" && gen.Err == nil)
	gen.Begin()
	gen.Emit(a)
	gen.Emit(b)
	vEnsures("both texts", gen.End() == a+b)
	gen.Begin()
	gen.Emit(c)
	vEnsures("begin starts over", gen.End() == c)
	gen.Emit(a)
	vEnsures("more after end", gen.End() == c+a)
}

//govc:target (*sadl.Generator).Begin (*sadl.Generator).Emit (*sadl.Generator).End
func verify_C09_sticky(err error, a, b string) {
	vRequires(err != nil)
	gen := &Generator{}
	gen.Begin()
	gen.Emit(a)
	gen.Err = err
	gen.Emit(b)
	vEnsures("nothing is returned after an error", gen.End() == "")
	gen.Begin()
	gen.Emit(b)
	vEnsures("nothing is emitted after an error", gen.End() == "")
	vEnsures("the error stays", gen.Err == err)
	gen.Err = nil
	vEnsures("nothing was emitted after the error", gen.End() == a)
}

//govc:target (*sadl.Generator).EmitTemplate
//govc:bounded text/template is outside the verifier's reach
func verify_C09_template(a, s string, kind int) {
	gen := &Generator{}
	gen.Begin()
	gen.Emit(a)
	data := map[string]interface{}{"x": s, "l": []string{s}}
	switch kind {
	case 1:
		gen.EmitTemplate("t", "{{.Nope}", data, nil)
		vEnsures("a bad template is an error", gen.Err != nil)
	case 2:
		gen.EmitTemplate("t", "<{{.x}}>{{index .l 3}}", data, nil)
		vEnsures("a template that fails is an error", gen.Err != nil)
	case 3:
		gen.Err = os.ErrInvalid
		out := os.Stdout
		if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stdout = null
			defer null.Close()
		}
		gen.EmitTemplate("t", s, data, nil)
		gen.EmitTemplate("t", "{{.Nope}", data, nil)
		os.Stdout = out
		vEnsures("the first error stays", gen.Err == os.ErrInvalid)
	default:
		gen.EmitTemplate("t", "<{{f .x}}>", data, map[string]interface{}{"f": func(s string) string { return s + "!" }})
		vEnsures("the rendered template is appended", gen.Err == nil && gen.End() == a+"<"+s+"!>")
		return
	}
	vEnsures("and nothing is emitted", gen.End() == "")
	gen.Err = nil
	vEnsures("not even in part", gen.End() == a)
}

func gen_C09_template(g *vGen) (string, string, int) { return g.String(), g.String(), g.n(5) }

type specWrite struct {
	Name    string // relative to the scratch directory
	Content string
	Force   bool
	Exists  bool
	Old     string
	Kind    int // 0 plain, 1 parent is missing, 2 parent is a file, 3 a directory, 4 a full device
	Prior   bool
}

//govc:target (*sadl.Generator).WriteFile (*sadl.Generator).FileExists
//govc:bounded the real file system
func verify_C09_file(w specWrite) {
	dir, err := os.MkdirTemp("", "c09")
	vAssume(err == nil)
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "f"+w.Name)
	switch w.Kind {
	case 1:
		path = filepath.Join(dir, "missing", "f")
	case 2:
		os.WriteFile(filepath.Join(dir, "plain"), []byte("x"), 0600)
		path = filepath.Join(dir, "plain", "f")
	case 3:
		os.Mkdir(path, 0700)
	case 4:
		path = "/dev/full"
		w.Force = true
	default:
		if w.Exists {
			os.WriteFile(path, []byte(w.Old), 0600)
		}
	}
	gen := &Generator{Config: NewData()}
	if w.Force {
		gen.Config.Put("force-overwrite", true)
	}
	prior := os.ErrClosed
	if w.Prior {
		gen.Err = prior
	}
	out := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
		defer null.Close()
	}
	gen.WriteFile(path, w.Content)
	os.Stdout = out
	var got []byte
	var rerr error
	if w.Kind != 4 {
		got, rerr = os.ReadFile(path)
	}
	switch {
	case w.Kind == 4:
		vEnsures("a failed write is recorded", len(w.Content) == 0 || gen.Err != nil)
	case w.Kind == 3:
		st, serr := os.Stat(path)
		vEnsures("an existing directory stays", serr == nil && st.IsDir())
		vEnsures("overwriting a directory is an error", !w.Force || gen.Err != nil)
	case w.Kind != 0:
		vEnsures("a file that cannot be created is an error", gen.Err != nil)
	case w.Exists && !w.Force:
		vEnsures("an existing file is not changed", rerr == nil && string(got) == w.Old)
	default:
		vEnsures("the content or an error", gen.Err != nil && !w.Prior || rerr == nil && string(got) == w.Content)
		vEnsures("no error without cause", gen.Err == nil || w.Prior)
	}
	vEnsures("an earlier error stays recorded", !w.Prior || gen.Err != nil)
}

func gen_C09_file(g *vGen) specWrite {
	w := specWrite{Name: g.pick("", "x.go", "a b"), Content: g.String(), Force: g.chance(50), Exists: g.chance(60), Old: g.String(), Prior: g.chance(15)}
	if g.chance(30) {
		w.Kind = 1 + g.n(4)
	}
	if g.chance(20) {
		for i := g.n(300); i > 0; i-- {
			w.Content += "0123456789abcdefghijklmnopqrstuvwxyz\n"
		}
	}
	return w
}

func gen_C09_sticky(g *vGen) (error, string, string) { return os.ErrInvalid, g.String(), g.String() }
