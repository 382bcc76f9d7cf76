package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (f *fileInst) line(n ast.Node) string {
	p := f.fset.Position(n.Pos())
	name := p.Filename[strings.LastIndex(p.Filename, "/")+1:]
	return fmt.Sprintf("%s:%d", name, p.Line)
}

// mapped returns the replacement selector for a package-level object of a seam.
func (f *fileInst) mapped(obj types.Object) (string, bool) {
	if obj == nil || obj.Pkg() == nil || obj.Parent() != obj.Pkg().Scope() {
		return "", false
	}
	s, ok := seams[obj.Pkg().Path()]
	if !ok || !s.all && !s.names[obj.Name()] {
		return "", false
	}
	f.need[s.repl] = true
	return alias(s.repl) + "." + obj.Name(), true
}

func (f *fileInst) collect() {
	info := f.info
	keep := map[*types.PkgName]int{}
	comma := map[ast.Expr]bool{}         // receive expressions in two-value position
	comm := map[ast.Stmt]bool{}          // communication statements of select clauses
	deferred := map[*ast.CallExpr]bool{} // calls of defer and go statements
	selX := map[*ast.Ident]bool{}
	ast.Inspect(f.file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok {
				if pn, ok := info.Uses[id].(*types.PkgName); ok {
					selX[id] = true
					if r, ok := f.mapped(info.Uses[n.Sel]); ok {
						f.repl[n] = func() string { return r }
					} else {
						keep[pn]++
					}
					selX[n.Sel] = true
				} else {
					selX[n.Sel] = true
				}
			} else {
				selX[n.Sel] = true
			}
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				comma[unparen(n.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				comma[unparen(n.Values[0])] = true
			}
		case *ast.CommClause:
			if n.Comm != nil {
				comm[n.Comm] = true
			}
		}
		return true
	})
	// dot imports
	ast.Inspect(f.file, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && !selX[id] {
			if obj := info.Uses[id]; obj != nil && obj.Pkg() != nil && obj.Pkg() != f.tpkg {
				if r, ok := f.mapped(obj); ok {
					f.repl[id] = func() string { return r }
				}
			}
		}
		return true
	})
	ast.Inspect(f.file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GoStmt:
			deferred[n.Call] = true
			f.repl[n] = func() string { return f.goStmt(n) }
		case *ast.DeferStmt:
			deferred[n.Call] = true
		case *ast.SendStmt:
			if !comm[n] {
				f.repl[n] = func() string {
					return "vsim.SendTo(" + f.text(n.Chan) + ")(" + f.text(n.Value) + ")"
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				fn := "vsim.Recv("
				if comma[n] {
					fn = "vsim.Recv2("
				}
				f.repl[n] = func() string { return fn + f.text(n.X) + ")" }
			}
		case *ast.CallExpr:
			if id, ok := unparen(n.Fun).(*ast.Ident); ok && id.Name == "close" {
				if _, ok := info.Uses[id].(*types.Builtin); ok {
					f.repl[id] = func() string { return "vsim.Close" }
				}
			}
			// bulk moves count as steps too
			if id, ok := unparen(n.Fun).(*ast.Ident); ok && !deferred[n] {
				if _, ok := info.Uses[id].(*types.Builtin); ok && id.Name == "copy" {
					f.repl[n] = func() string { return "vsim.Moved(" + f.inner(n) + ")" }
				} else if ok && id.Name == "append" && n.Ellipsis.IsValid() && len(n.Args) == 2 && isSlice(info.Types[n.Args[1]]) {
					f.repl[n] = func() string {
						return f.span(n, n.Pos(), n.Args[1].Pos()) + "vsim.Spread(" + f.text(n.Args[1]) + ")" + f.span(n, n.Args[1].End(), n.End())
					}
				}
			}
		case *ast.SelectStmt:
			f.repl[n] = func() string { return f.selectStmt(n) }
		case *ast.RangeStmt:
			f.rangeStmt(n)
		case *ast.ForStmt:
			b := n.Body
			f.repl[b] = func() string { return f.ticked(b) }
		}
		return true
	})
	// imports
	for _, is := range f.file.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		if _, ok := seams[path]; !ok {
			continue
		}
		var obj types.Object
		if is.Name != nil {
			obj = info.Defs[is.Name]
			if is.Name.Name == "." || is.Name.Name == "_" {
				if is.Name.Name == "." {
					is := is
					f.repl[is] = func() string { return "_ " + is.Path.Value }
				}
				continue
			}
		} else {
			obj = info.Implicits[is]
		}
		pn, _ := obj.(*types.PkgName)
		if pn == nil || keep[pn] == 0 {
			is := is
			f.repl[is] = func() string { return "_ " + is.Path.Value }
		}
	}
	name := f.file.Name
	f.repl[name] = func() string {
		s := name.Name
		if f.isMain {
			s = "simmain"
		}
		s += "; import vsim \"verif/sim\""
		var need []string
		for r := range f.need {
			need = append(need, r)
		}
		sort.Strings(need)
		for _, r := range need {
			s += "; import " + alias(r) + " " + strconv.Quote(r)
		}
		return s + "; var _ = vsim.Tick"
	}
	// "var _" must come after all imports: put it at the end of the file instead
	f.repl[name] = func(old func() string) func() string {
		return func() string { return strings.TrimSuffix(old(), "; var _ = vsim.Tick") }
	}(f.repl[name])
	f.extra.WriteString("\nvar _ = vsim.Tick\n")
}

func (f *fileInst) ticked(b *ast.BlockStmt) string {
	return "{ vsim.Tick(); " + f.span(b, b.Lbrace+1, b.End())
}

func (f *fileInst) tickedPrefix(b *ast.BlockStmt, prefix string) string {
	return "{ vsim.Tick(); " + prefix + f.span(b, b.Lbrace+1, b.End())
}

func (f *fileInst) isInline(e ast.Expr) bool {
	tv := f.info.Types[e]
	if tv.Value != nil || tv.IsNil() {
		return true
	}
	return false
}

func (f *fileInst) goStmt(n *ast.GoStmt) string {
	c := n.Call
	name := strconv.Quote("go@" + f.line(n))
	fun := unparen(c.Fun)
	if lit, ok := fun.(*ast.FuncLit); ok && len(c.Args) == 0 && (lit.Type.Results == nil || len(lit.Type.Results.List) == 0) {
		return "vsim.Go(" + name + ", " + f.text(lit) + ")"
	}
	var lhs, rhs []string
	callee := ""
	direct := false
	switch x := fun.(type) {
	case *ast.Ident:
		switch f.info.Uses[x].(type) {
		case *types.Func, *types.Builtin:
			direct = true
		}
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, ok := f.info.Uses[id].(*types.PkgName); ok {
				if _, ok := f.info.Uses[x.Sel].(*types.Func); ok {
					direct = true
				}
			}
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		// an explicitly instantiated generic function
		if tv := f.info.Types[fun]; tv.IsValue() {
			var id ast.Expr
			switch y := x.(type) {
			case *ast.IndexExpr:
				id = y.X
			case *ast.IndexListExpr:
				id = y.X
			}
			switch y := unparen(id).(type) {
			case *ast.Ident:
				_, direct = f.info.Uses[y].(*types.Func)
			case *ast.SelectorExpr:
				_, direct = f.info.Uses[y.Sel].(*types.Func)
			}
		}
	}
	if direct {
		callee = f.text(c.Fun)
	} else {
		callee = "vsim_f"
		lhs = append(lhs, "vsim_f")
		rhs = append(rhs, f.text(c.Fun))
	}
	var args []string
	pre := ""
	if len(c.Args) == 1 {
		if t, ok := f.info.Types[c.Args[0]].Type.(*types.Tuple); ok {
			var names []string
			for i := 0; i < t.Len(); i++ {
				names = append(names, fmt.Sprintf("vsim_a%d", i))
			}
			pre = strings.Join(names, ", ") + " := " + f.text(c.Args[0]) + "; "
			args = names
			goto done
		}
	}
	for i, a := range c.Args {
		if f.isInline(a) {
			args = append(args, f.text(a))
			continue
		}
		if id, ok := unparen(c.Fun).(*ast.Ident); ok {
			if _, ok := f.info.Uses[id].(*types.Builtin); ok && f.info.Types[a].IsType() {
				args = append(args, f.text(a))
				continue
			}
		}
		v := fmt.Sprintf("vsim_a%d", i)
		lhs = append(lhs, v)
		rhs = append(rhs, f.text(a))
		args = append(args, v)
	}
done:
	ell := ""
	if c.Ellipsis.IsValid() {
		ell = "..."
	}
	bind := ""
	if len(lhs) > 0 {
		bind = strings.Join(lhs, ", ") + " := " + strings.Join(rhs, ", ") + "; "
	}
	return "{ " + bind + pre + "vsim.Go(" + name + ", func() { " + callee + "(" + strings.Join(args, ", ") + ell + ") }) }"
}

func (f *fileInst) selectStmt(n *ast.SelectStmt) string {
	if len(n.Body.List) == 0 {
		return "for { vsim.Forever() }"
	}
	f.pkgInst.seq++
	id := f.pkgInst.seq
	var lhs, rhs []string
	hasDefault := false
	last := -1
	for i, s := range n.Body.List {
		if s.(*ast.CommClause).Comm == nil {
			hasDefault = true
		} else {
			last = i
		}
	}
	var b strings.Builder
	idx := 0
	at := n.Body.Lbrace + 1
	for i, s := range n.Body.List {
		cc := s.(*ast.CommClause)
		b.WriteString(f.raw(at, cc.Pos()))
		at = cc.End()
		bodyText := f.span(cc, cc.Colon+1, cc.End())
		if cc.Comm == nil {
			b.WriteString("default:" + bodyText)
			continue
		}
		v := fmt.Sprintf("vsim_c%d_%d", id, idx)
		label := fmt.Sprintf("case %d:", idx)
		if !hasDefault && i == last {
			label = "default:"
		}
		idx++
		lhs = append(lhs, v)
		bind := ""
		recv := func(e ast.Expr) ast.Expr { return unparen(e).(*ast.UnaryExpr).X }
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, "vsim.SendCase("+f.text(c.Chan)+")("+f.text(c.Value)+")")
		case *ast.ExprStmt:
			rhs = append(rhs, "vsim.RecvCase("+f.text(recv(c.X))+")")
		case *ast.AssignStmt:
			rhs = append(rhs, "vsim.RecvCase("+f.text(recv(c.Rhs[0]))+")")
			var l []string
			for _, e := range c.Lhs {
				l = append(l, f.text(e))
			}
			m := ".Val()"
			if len(l) == 2 {
				m = ".Val2()"
			}
			tok := c.Tok.String()
			bind = " " + strings.Join(l, ", ") + " " + tok + " " + v + m + "; "
		}
		b.WriteString(label + bind + bodyText)
	}
	b.WriteString(f.raw(at, n.Body.End()))
	if len(lhs) == 0 { // only a default clause
		return "switch vsim.Select(true) {" + b.String()
	}
	return fmt.Sprintf("switch %s := %s; vsim.Select(%v, %s) {", strings.Join(lhs, ", "), strings.Join(rhs, ", "), hasDefault, strings.Join(lhs, ", ")) + b.String()
}

func coreType(t types.Type) types.Type {
	if tp, ok := t.(*types.TypeParam); ok {
		if i, ok := tp.Constraint().Underlying().(*types.Interface); ok {
			for k := 0; k < i.NumEmbeddeds(); k++ {
				switch e := i.EmbeddedType(k).(type) {
				case *types.Union:
					if e.Len() > 0 {
						return e.Term(0).Type().Underlying()
					}
				default:
					return e.Underlying()
				}
			}
		}
		return t
	}
	return t.Underlying()
}

func (f *fileInst) rangeStmt(n *ast.RangeStmt) {
	t := f.info.Types[n.X].Type
	b := n.Body
	name := func(e ast.Expr) string {
		if e == nil {
			return "_"
		}
		return f.text(e)
	}
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	switch coreType(t).(type) {
	case *types.Chan:
		f.pkgInst.seq++
		ch := fmt.Sprintf("vsim_ch%d", f.pkgInst.seq)
		f.repl[n] = func() string {
			x := f.text(n.X)
			switch {
			case blank(n.Key):
				return "for " + ch + " := " + x + "; ; " + f.tickedPrefix(b, "if _, vsim_ok := vsim.Recv2("+ch+"); !vsim_ok { break }; ")
			case n.Tok == token.DEFINE:
				v := name(n.Key)
				return "for " + ch + ", " + v + " := vsim.ChanZero(" + x + "); ; " +
					f.tickedPrefix(b, "{ var vsim_ok bool; if "+v+", vsim_ok = vsim.Recv2("+ch+"); !vsim_ok { break } }; ")
			default:
				return "for " + ch + " := " + x + "; ; " +
					f.tickedPrefix(b, "{ vsim_v, vsim_ok := vsim.Recv2("+ch+"); if !vsim_ok { break }; "+name(n.Key)+" = vsim_v }; ")
			}
		}
	case *types.Map:
		f.pkgInst.seq++
		it := fmt.Sprintf("vsim_it%d", f.pkgInst.seq)
		f.repl[n] = func() string {
			x := f.text(n.X)
			kb, vb := blank(n.Key), blank(n.Value)
			if n.Tok == token.DEFINE && !(kb && vb) {
				ka, va := "nil", "nil"
				k, v := "_", "_"
				if !kb {
					k = name(n.Key)
					ka = "&" + k
				}
				if !vb {
					v = name(n.Value)
					va = "&" + v
				}
				return "for " + it + ", " + k + ", " + v + " := vsim.RangeMap(" + x + "); " + it + ".Next(" + ka + ", " + va + "); " + f.ticked(b)
			}
			s := ""
			if !kb {
				s += name(n.Key) + " = " + it + ".Key(); "
			}
			if !vb {
				s += name(n.Value) + " = " + it + ".Val(); "
			}
			return "for " + it + ", _, _ := vsim.RangeMap(" + x + "); " + it + ".Step(); " + f.tickedPrefix(b, s)
		}
	default:
		f.repl[b] = func() string { return f.ticked(b) }
	}
}

func isSlice(tv types.TypeAndValue) bool {
	if tv.Type == nil || tv.IsNil() {
		return false
	}
	if _, ok := tv.Type.(*types.TypeParam); ok {
		return false
	}
	_, ok := tv.Type.Underlying().(*types.Slice)
	return ok
}
