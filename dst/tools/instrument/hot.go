package main

import (
	"bufio"
	"fmt"
	"go/scanner"
	"go/token"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Lines of the source that are not next to each other in the source the checks
// were written for are "hot": half of the held goroutines of a check are held
// around them. This directs the search only; what is a violation does not depend
// on it.

// codeLines returns the code of every line of a file, without comments and spacing.
func codeLines(src []byte) map[int]string {
	fs := token.NewFileSet()
	f := fs.AddFile("", fs.Base(), len(src))
	var s scanner.Scanner
	s.Init(f, src, nil, 0)
	out := map[int]string{}
	for {
		p, t, lit := s.Scan()
		if t == token.EOF {
			return out
		}
		if t == token.SEMICOLON && lit == "\n" {
			continue
		}
		if lit == "" {
			lit = t.String()
		}
		out[fs.Position(p).Line] += lit + " "
	}
}

func linePairs(rel string, src []byte) (line []int, hash []string) {
	cl := codeLines(src)
	for l := range cl {
		line = append(line, l)
	}
	sort.Ints(line)
	prev := ""
	for _, l := range line {
		h := fnv.New64a()
		fmt.Fprintf(h, "%s\n%s\n%s", rel, prev, cl[l])
		hash = append(hash, fmt.Sprintf("%016x", h.Sum64())[:10])
		prev = cl[l]
	}
	return
}

func baseline(repo string, dirs []string) []string {
	set := map[string]bool{}
	for _, d := range dirs {
		filepath.Walk(filepath.Join(repo, d), func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.Mode().IsRegular() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
				b, err := os.ReadFile(p)
				check(err)
				rel, _ := filepath.Rel(repo, p)
				_, hs := linePairs(rel, b)
				for _, h := range hs {
					set[h] = true
				}
			}
			return nil
		})
	}
	var out []string
	for h := range set {
		out = append(out, h)
	}
	sort.Strings(out)
	return out
}

var base map[string]bool

func loadBaseline(file string) {
	f, err := os.Open(file)
	if err != nil {
		return
	}
	defer f.Close()
	base = map[string]bool{}
	for s := bufio.NewScanner(f); s.Scan(); {
		base[s.Text()] = true
	}
}

// hotLines says which lines of a file are in or next to changed code.
func hotLines(rel string, src []byte) map[int]bool {
	out := map[int]bool{}
	if base == nil {
		return out
	}
	ls, hs := linePairs(rel, src)
	for i, h := range hs {
		if base[h] {
			continue
		}
		for k := max(0, i-2); k <= min(len(ls)-1, i+2); k++ {
			out[ls[k]] = true
		}
	}
	return out
}
