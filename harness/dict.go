package main

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"io/fs"
	"math/rand"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// This file collects the constants in the source of the code under test, as
// fuzzers do: values that the code treats in a special way are rarely found by
// chance, but they are nearly always written down in it. They only steer what
// is generated, and have no part in any verdict.

// dictInts and dictStrs are the integers and texts found in the source.
var (
	dictInts []uint64
	dictStrs []string
)

var timeUnits = map[string]int64{
	"Nanosecond": 1, "Microsecond": int64(time.Microsecond),
	"Millisecond": int64(time.Millisecond), "Second": int64(time.Second),
	"Minute": int64(time.Minute), "Hour": int64(time.Hour),
}

var mathConsts = map[string]string{
	"MaxUint8": "255", "MaxUint16": "65535", "MaxUint32": "4294967295",
	"MaxUint64": "18446744073709551615", "MaxInt8": "127",
	"MaxInt16": "32767", "MaxInt32": "2147483647",
	"MaxInt64": "9223372036854775807",
}

// evalConst evaluates an expression of literals, nil if it isn't one.
func evalConst(e ast.Expr, names map[string]constant.Value) (val constant.Value,
	dur bool) {

	defer func() {
		if recover() != nil {
			val = nil
		}
	}()
	switch x := e.(type) {
	case *ast.BasicLit:
		if x.Kind == token.INT || x.Kind == token.CHAR ||
			x.Kind == token.FLOAT {

			return constant.MakeFromLiteral(x.Value, x.Kind, 0), false
		}
	case *ast.ParenExpr:
		return evalConst(x.X, names)
	case *ast.Ident:
		return names[x.Name], false
	case *ast.SelectorExpr:
		p, ok := x.X.(*ast.Ident)
		if !ok {
			return nil, false
		}
		if n, ok := timeUnits[x.Sel.Name]; ok && p.Name == "time" {
			return constant.MakeInt64(n), true
		}
		if s, ok := mathConsts[x.Sel.Name]; ok && p.Name == "math" {
			return constant.MakeFromLiteral(s, token.INT, 0), false
		}
	case *ast.CallExpr:
		// A conversion.
		if len(x.Args) == 1 {
			return evalConst(x.Args[0], names)
		}
	case *ast.BinaryExpr:
		a, da := evalConst(x.X, names)
		b, db := evalConst(x.Y, names)
		if a == nil || b == nil {
			return nil, false
		}
		switch x.Op {
		case token.SHL, token.SHR:
			n, ok := constant.Uint64Val(b)
			if !ok || n > 64 {
				return nil, false
			}
			return constant.Shift(a, x.Op, uint(n)), da
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR:
			return constant.BinaryOp(a, x.Op, b), da || db
		case token.QUO:
			if constant.Sign(b) == 0 {
				return nil, false
			}
			return constant.BinaryOp(a, token.QUO_ASSIGN, b), da || db
		}
	}
	return nil, false
}

func loadDict(root string) {
	ints, strs := map[uint64]bool{}, map[string]bool{}
	add := func(v constant.Value, dur bool) {
		if v == nil {
			return
		}
		n, ok := constant.Uint64Val(constant.ToInt(v))
		if !ok {
			return
		}
		if dur {
			n /= uint64(time.Second)
		}
		if n > 3 {
			ints[n] = true
		}
	}
	var files []*ast.File
	_ = filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() && (d.Name() == ".git" || d.Name() == "itest" ||
			d.Name() == "offersrpc" || d.Name() == "testutils") {

			return filepath.SkipDir
		}
		if strings.HasSuffix(p, ".go") &&
			!strings.HasSuffix(p, "_test.go") {

			f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
			if err == nil {
				files = append(files, f)
			}
		}
		return nil
	})
	names := map[string]constant.Value{}
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.CONST {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for i := range vs.Names {
					if i < len(vs.Values) {
						v, _ := evalConst(vs.Values[i], nil)
						if v != nil {
							names[vs.Names[i].Name] = v
						}
					}
				}
			}
		}
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BasicLit:
				if x.Kind == token.STRING {
					s, err := strconv.Unquote(x.Value)
					if err == nil && s != "" && len(s) <= 40 {
						strs[s] = true
					}
				}
				add(evalConst(x, names))
			case ast.Expr:
				add(evalConst(x, names))
			}
			return true
		})
	}
	for n := range ints {
		dictInts = append(dictInts, n)
	}
	for s := range strs {
		dictStrs = append(dictStrs, s)
	}
	sort.Slice(dictInts, func(i, j int) bool {
		return dictInts[i] < dictInts[j]
	})
	sort.Strings(dictStrs)
}

// dictInt is a constant of the source, or next to one.
func dictInt(r *rand.Rand) uint64 {
	if len(dictInts) == 0 {
		return 0
	}
	n := dictInts[r.Intn(len(dictInts))]
	switch r.Intn(5) {
	case 0:
		return n + 1
	case 1:
		return n - 1
	}
	return n
}

// dictLen is such a constant that can serve as a length, up to max.
func dictLen(r *rand.Rand, max int) int {
	n := dictInt(r)
	for i := 0; i < 4 && n > uint64(max); i++ {
		n = dictInt(r)
	}
	if n > uint64(max) {
		return r.Intn(max)
	}
	return int(n)
}

// dictStr is a text of the source.
func dictStr(r *rand.Rand) string {
	if len(dictStrs) == 0 {
		return ""
	}
	return dictStrs[r.Intn(len(dictStrs))]
}
