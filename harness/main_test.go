package verif

import (
	"encoding/json"
	"os"
	"testing"
)

// TestChild runs the cases of the spec file named by VERIF_SPEC.
func TestChild(t *testing.T) {
	p := os.Getenv("VERIF_SPEC")
	if p == "" {
		t.Skip("run by vrun")
	}
	b, err := os.ReadFile(p)
	if err != nil {
		t.Fatal(err)
	}
	var s Spec
	if err := json.Unmarshal(b, &s); err != nil {
		t.Fatal(err)
	}
	RunChild(t, &s)
}

// TestList prints the registered scenarios for vrun.
func TestList(t *testing.T) {
	p := os.Getenv("VERIF_LIST")
	if p == "" {
		t.Skip("run by vrun")
	}
	type sc struct {
		Name     string `json:"name"`
		Mode     string `json:"mode"`
		Race     bool   `json:"race"`
		Quick    int    `json:"quick"`
		Thorough int    `json:"thorough"`
		Batch    int    `json:"batch"`
		Known    string `json:"known"`
		Watch    int    `json:"watch"`
		Serial   bool   `json:"serial"`
		NoReal   bool   `json:"noreal"`
	}
	type pr struct {
		ID    string `json:"id"`
		Rule  string `json:"rule"`
		Scens []sc   `json:"scens"`
	}
	var out []pr
	for _, id := range sortedKeys(Props) {
		p := Props[id]
		o := pr{ID: id, Rule: p.Rule}
		for _, s := range p.Scens {
			o.Scens = append(o.Scens, sc{s.Name, s.Mode.String(), s.Race, s.Quick, s.Thorough, s.Batch, s.Known, s.Watch, s.Serial, s.NoReal})
		}
		out = append(out, o)
	}
	b, _ := json.MarshalIndent(out, "", " ")
	if err := os.WriteFile(p, b, 0o644); err != nil {
		t.Fatal(err)
	}
}
