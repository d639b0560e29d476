// mkoverlay REPO OUTDIR rewrites the imports of the packages that touch files,
// the network or locks so that they resolve to the shims, and writes
// OUTDIR/overlay.json for go build -overlay. REPO itself is not touched.
package main

import (
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var shims = map[string][2]string{ // import path -> package name, shim
	"os":        {"os", "dripverif/shim/os"},
	"net":       {"net", "dripverif/shim/net"},
	"sync":      {"sync", "dripverif/shim/sync"},
	"math/rand": {"rand", "dripverif/shim/rand"},
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	{
		err := filepath.Walk(repo, func(f string, st os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if st.IsDir() && (strings.HasPrefix(st.Name(), ".") || f == filepath.Join(repo, "bencode")) {
				return filepath.SkipDir // bencode is a module of its own that does no I/O
			}
			if st.IsDir() || !strings.HasSuffix(f, ".go") || strings.HasSuffix(f, "_test.go") {
				return nil
			}
			src, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, src, parser.ImportsOnly)
			if err != nil {
				return err
			}
			type cut struct {
				from, to int
				text     string
			}
			var cuts []cut
			for _, im := range af.Imports {
				path, _ := strconv.Unquote(im.Path.Value)
				sh, ok := shims[path]
				if !ok {
					continue
				}
				name := sh[0]
				from := fset.Position(im.Path.Pos()).Offset
				if im.Name != nil {
					name = im.Name.Name
					from = fset.Position(im.Name.Pos()).Offset
				}
				cuts = append(cuts, cut{from, fset.Position(im.Path.End()).Offset, fmt.Sprintf("%s %q", name, sh[1])})
			}
			if len(cuts) == 0 {
				return nil
			}
			sort.Slice(cuts, func(i, j int) bool { return cuts[i].from > cuts[j].from })
			s := string(src)
			for _, c := range cuts {
				s = s[:c.from] + c.text + s[c.to:]
			}
			rel, _ := filepath.Rel(repo, f)
			dst := filepath.Join(out, strings.ReplaceAll(rel, "/", "__"))
			replace[f] = dst
			if err := os.MkdirAll(out, 0o755); err != nil {
				return err
			}
			return os.WriteFile(dst, []byte(s), 0o644)
		})
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.MkdirAll(out, 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		panic(err)
	}
}
