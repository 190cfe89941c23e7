package model

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

// TestSuite validates the model against the JSON-Schema-Test-Suite copy in /repo.
func TestSuite(t *testing.T) {
	files := map[string]interface{}{}
	filepath.Walk("/repo/testdata/remotes", func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			b, _ := os.ReadFile(p)
			files["http://localhost:1234"+strings.TrimPrefix(p, "/repo/testdata/remotes")] = string(b)
		}
		return nil
	})
	total, unk, bad := 0, 0, 0
	for dir, d := range map[string]Draft{"draft4": D4, "draft6": D6, "draft7": D7} {
		fs, _ := filepath.Glob("/repo/testdata/" + dir + "/*.json")
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			var groups []struct {
				Description string
				Schema      json.RawMessage
				Tests       []struct {
					Description string
					Data        json.RawMessage
					Valid       bool
				}
			}
			if json.Unmarshal(b, &groups) != nil {
				t.Fatal(f)
			}
			for _, g := range groups {
				l := NewLoader(true, d)
				for u, s := range files {
					l.Files[u] = MustDecode(s.(string))
				}
				l.Meta = func(u string) interface{} { return MustDecode(MetaText(u)) }
				s, st, why := l.CompileDoc(MustDecode(string(g.Schema)))
				for _, c := range g.Tests {
					total++
					if st != OK {
						unk++
						t.Logf("%s %s: %s: %v %s", dir, filepath.Base(f), g.Description, st, why)
						continue
					}
					ok, vst, why := s.Valid(MustDecode(string(c.Data)))
					if vst != OK {
						unk++
						t.Logf("%s %s: %s/%s: %v %s", dir, filepath.Base(f), g.Description, c.Description, vst, why)
						continue
					}
					if ok != c.Valid {
						bad++
						t.Errorf("%s %s: %s/%s: got %v", dir, filepath.Base(f), g.Description, c.Description, ok)
					}
				}
			}
		}
	}
	t.Logf("%d cases, %d outside, %d wrong", total, unk, bad)
}
