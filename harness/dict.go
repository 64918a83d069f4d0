package main

// The dictionary: whole-number and text constants found in the code under
// test. The generators mix them into the fields and counts they draw, so that
// a limit or a special value in the code is met from both sides. The numbers
// in known_numbers.txt have always been there; others are new, and get more
// weight. The dictionary only steers the search: every case is judged by the
// same oracles, and a tree that cannot be parsed gives an empty one.

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"sync"
)

//go:embed known_numbers.txt
var knownNumbers string

//go:embed known_texts.txt
var knownTexts string

type dictionary struct {
	all   []uint64 // every number
	novel []uint64 // those not in known_numbers.txt
	texts [][]byte // texts not in known_texts.txt
}

var dict = sync.OnceValue(func() (d dictionary) {
	nums, texts := readConstants(repoDir)
	known := map[string]bool{}
	for _, l := range strings.Fields(knownNumbers) {
		known[l] = true
	}
	for _, v := range sortedNums(nums) {
		d.all = append(d.all, v)
		if !known[fmt.Sprint(v)] {
			d.novel = append(d.novel, v)
		}
	}
	for _, l := range strings.Split(knownTexts, "\n") {
		delete(texts, l)
	}
	for _, s := range sortedKeys(texts) {
		if s, err := strconv.Unquote(s); err == nil && len(s) <= 64 && !strings.ContainsAny(s, " %/") {
			d.texts = append(d.texts, []byte(s))
		}
	}
	return d
})

func sortedNums(m map[uint64]bool) []uint64 {
	vs := make([]uint64, 0, len(m))
	for v := range m {
		vs = append(vs, v)
	}
	slices.Sort(vs)
	return vs
}

// readConstants collects the numbers above 1 and the (quoted) texts in the Go
// files below a directory, tests aside.
func readConstants(dir string) (map[uint64]bool, map[string]bool) {
	nums, texts := map[uint64]bool{}, map[string]bool{}
	_ = filepath.WalkDir(dir, func(path string, e fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if e.IsDir() && strings.HasPrefix(e.Name(), ".") {
			return filepath.SkipDir
		}
		if e.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), path, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.CompositeLit:
				return len(x.Elts) < 64 // a table
			case *ast.BasicLit:
				if x.Kind == token.STRING {
					texts[x.Value] = true
					return true
				}
			}
			if x, ok := n.(ast.Expr); ok {
				addNumber(nums, constOf(x))
			}
			return true
		})
		return nil
	})
	return nums, texts
}

func addNumber(nums map[uint64]bool, v constant.Value) {
	if v == nil {
		return
	}
	if v = constant.ToInt(v); v.Kind() != constant.Int {
		return
	}
	if constant.Sign(v) < 0 {
		v = constant.UnaryOp(token.SUB, v, 0)
	}
	if u, ok := constant.Uint64Val(v); ok && u > 1 {
		nums[u] = true
	}
}

// constOf evaluates literals and the operations on them.
func constOf(e ast.Expr) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	switch x := e.(type) {
	case *ast.BasicLit:
		if x.Kind == token.INT || x.Kind == token.FLOAT || x.Kind == token.CHAR {
			return constant.MakeFromLiteral(x.Value, x.Kind, 0)
		}
	case *ast.ParenExpr:
		return constOf(x.X)
	case *ast.BinaryExpr:
		a, b := constOf(x.X), constOf(x.Y)
		if a == nil || b == nil {
			return nil
		}
		switch x.Op {
		case token.SHL, token.SHR:
			if s, ok := constant.Uint64Val(constant.ToInt(b)); ok && s < 64 {
				return constant.Shift(constant.ToInt(a), x.Op, uint(s))
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			return constant.BinaryOp(a, x.Op, b)
		case token.QUO:
			if a.Kind() == constant.Int && b.Kind() == constant.Int {
				return constant.BinaryOp(a, token.QUO_ASSIGN, b)
			}
			return constant.BinaryOp(a, x.Op, b)
		}
	}
	return nil
}

// fitting gives the numbers of the list, and their neighbours, that are within bounds.
func fitting(list []uint64, lo, hi uint64) (out []uint64) {
	for _, v := range list {
		for _, w := range []uint64{v - 1, v, v + 1} {
			if w >= lo && w <= hi {
				out = append(out, w)
			}
		}
	}
	return out
}

type fitKey struct {
	novel  bool
	lo, hi uint64
}

var fitCache = map[fitKey][]uint64{}

func fits(novel bool, lo, hi uint64) []uint64 {
	k := fitKey{novel, lo, hi}
	v, ok := fitCache[k]
	if !ok {
		if novel {
			v = fitting(dict().novel, lo, hi)
		} else {
			v = fitting(dict().all, lo, hi)
		}
		if len(fitCache) < 10000 {
			fitCache[k] = v
		}
	}
	return v
}

// dictMain prints what known_numbers.txt and known_texts.txt are made of.
func dictMain(dir string) {
	nums, texts := readConstants(dir)
	for _, v := range sortedNums(nums) {
		fmt.Println(v)
	}
	for _, s := range sortedKeys(texts) {
		fmt.Fprintln(os.Stderr, s)
	}
}
