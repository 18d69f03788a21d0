package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the code under verification, loaded from the working tree.
type Program struct {
	fset  *token.FileSet
	pkg   *ssa.Package
	funcs map[string]*ssa.Function
	names map[*ssa.Function]string
	files []string
}

func loadProgram(dir string) (*Program, error) {
	fset := token.NewFileSet()
	bp, err := build.Default.ImportDir(dir, 0)
	if err != nil {
		return nil, err
	}
	var files []*ast.File
	p := &Program{fset: fset, funcs: map[string]*ssa.Function{}, names: map[*ssa.Function]string{}}
	sort.Strings(bp.GoFiles)
	for _, n := range bp.GoFiles {
		f, err := parser.ParseFile(fset, filepath.Join(dir, n), nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
		p.files = append(p.files, n)
	}
	tc := &types.Config{Importer: importer.ForCompiler(fset, "source", nil)}
	pkg := types.NewPackage("github.com/ecoshub/jin", bp.Name)
	sp, _, err := ssautil.BuildPackage(tc, fset, pkg, files, ssa.NaiveForm)
	if err != nil {
		return nil, err
	}
	p.pkg = sp
	for _, m := range sp.Members {
		switch m := m.(type) {
		case *ssa.Function:
			p.add(m.Name(), m)
		case *ssa.Type:
			n, ok := m.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < n.NumMethods(); i++ {
				f := sp.Prog.FuncValue(n.Method(i))
				if f != nil {
					p.add(n.Obj().Name()+"."+f.Name(), f)
				}
			}
		}
	}
	return p, nil
}

func (p *Program) add(name string, f *ssa.Function) {
	p.funcs[name] = f
	p.names[f] = name
	for i, a := range f.AnonFuncs {
		p.add(fmt.Sprintf("%s$%d", name, i+1), a)
	}
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return ""
	}
	q := p.fset.Position(ps)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

// Loop is a natural loop.
type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
	id     int
}

type FnInfo struct {
	loops  []*Loop
	byHead map[*ssa.BasicBlock]*Loop
	rpo    []*ssa.BasicBlock
}

var fnInfos = map[*ssa.Function]*FnInfo{}

func infoOf(f *ssa.Function) *FnInfo {
	if i, ok := fnInfos[f]; ok {
		return i
	}
	fi := &FnInfo{byHead: map[*ssa.BasicBlock]*Loop{}}
	fnInfos[f] = fi
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				l := fi.byHead[h]
				if l == nil {
					l = &Loop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					fi.byHead[h] = l
					fi.loops = append(fi.loops, l)
				}
				// natural loop of b -> h
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] || !seen[x] {
						continue
					}
					l.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	sort.Slice(fi.loops, func(i, j int) bool { return fi.loops[i].header.Index < fi.loops[j].header.Index })
	for i, l := range fi.loops {
		l.id = i
		for _, m := range fi.loops {
			if m != l && m.blocks[l.header] && m.header != l.header {
				if l.parent == nil || len(m.blocks) < len(l.parent.blocks) {
					l.parent = m
				}
			}
		}
	}
	return fi
}
