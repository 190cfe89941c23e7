package main

type propInfo struct {
	rule   string
	real   []string
	stub   []string
	assume []string
}

var realAll = []string{
	"gojsonschema, every file, built from /repo's working tree with yield points, map iteration, sync and clock routed to the simulator",
	"gojsonreference, gojsonpointer, encoding/json, net/http client logic (redirects), net/url, regexp, math/big, text/template",
}
var stubNet = []string{"network: an http.RoundTripper serving resources of the plan with injected faults", "file systems: http.FileSystem implementations serving resources of the plan with injected faults; plain file:// URLs go to real files in a scratch directory"}
var stubSched = []string{"goroutine scheduler: one task at a time, chosen by the seed at every library statement", "Go's random map iteration order: chosen by the seed", "sync primitives and clock of the library: simulator versions"}

func both(a ...[]string) (out []string) {
	for _, x := range a {
		out = append(out, x...)
	}
	return
}

const assumeInstr = "source instrumentation (yield points before statements, map ranges, sync types) does not change what the library computes; the library's own test-suite semantics were used to check this"
const assumeModel = "the reference model (sim/model), written from the specifications and README, is right where it gives an opinion; where it has none the call is not judged"

var info = map[string]propInfo{
	"C01": {"Runs: 1-2 random schemas shared by 2-4 tasks that validate random instances (and compile), preempted at random statements; oracle: every call alone gives the same verdict and error multiset; 5 of 8 workers under the race detector with hand-offs hidden from it.", realAll, stubSched, []string{assumeInstr}},
	"C02": {"Runs: a random schema or graph of documents compiled and validated under several map-order seeds and after different earlier histories; oracle: equal outcomes, and the reference model where it has an opinion.", realAll, both(stubSched, stubNet), []string{assumeInstr, assumeModel}},
	"C03": {"Runs: a random schema under one of the drafts, directed instances validated by interleaved tasks under seeded map orders; oracle: executable reference model of JSON Schema.", realAll, stubSched, []string{assumeInstr, assumeModel}},
	"C04": {"Runs: document graphs over simulated network and file systems with faults placed at random steps and offsets; oracle: a call hit by a fault must fail, any other call must match the model.", realAll, both(stubNet, stubSched), []string{assumeInstr, assumeModel}},
	"C05": {"Runs: as C04, also concurrent; oracle: ledger of handles opened and closed at every call's return.", realAll, both(stubNet, stubSched), []string{assumeInstr}},
	"C06": {"Runs: registrations and compilations retried under transient faults, then faults stop and the calls are made again; oracle: model, loader settings, and the same history without faults.", realAll, both(stubNet, stubSched), []string{assumeInstr, assumeModel}},
	"C07": {"Runs: graphs of documents with relative, absolute, pointer and location-independent references, registered, fetched or both, over several stores with equal paths; oracle: model resolver and request log.", realAll, both(stubNet, stubSched), []string{assumeInstr, assumeModel}},
	"C08": {"Runs: histories of registrations, refused registrations, compilations and failed loads over few URIs with uniquely tagged documents; oracle: model registry, probed through references.", realAll, both(stubNet, stubSched), []string{assumeInstr, assumeModel}},
	"C09": {"Runs: graphs of documents with draft-sensitive probes under all loader settings and load orders; oracle: model.", realAll, both(stubNet, stubSched), []string{assumeInstr, assumeModel}},
	"C10": {"Runs: a schema is compiled and probed, then its loader, sources and results are used, changed and tampered with, sequentially and concurrently with validations; oracle: outcomes of the probes never change.", realAll, both(stubNet, stubSched), []string{assumeInstr}},
	"C11": {"Runs: values shared between compilations, registrations and validations of several loaders and tasks; oracle: deep equality of the values before and after, same outcomes as with fresh copies, race detector.", realAll, both(stubNet, stubSched), []string{assumeInstr}},
	"C12": {"Runs: 2-4 tasks add, remove, query and validate against few format names; oracle: linearizability of the recorded history per name.", realAll, stubSched, []string{assumeInstr}},
	"C13": {"Runs: callbacks re-enter the library or panic at random points, alone and concurrently; oracle: deadlock detection, step budget, and later calls equal to a process without the panic.", realAll, both(stubNet, stubSched), []string{assumeInstr}},
	"C14": {"Runs: documents corrupted by bit flips, cuts, splices and structural replacement delivered through every loader; oracle: no panic, no exhausted step budget, concurrent and later calls unaffected.", realAll, both(stubNet, stubSched), []string{assumeInstr}},
	"C15": {"Runs: documents read or written through the stream loaders with seeded chunking, short counts and faults; oracle: byte-for-byte transparency and the loaded document.", realAll, stubSched, []string{assumeInstr}},
	"C18": {"Runs: histories of locales and sequential and interleaved validations, with errors of every type and errors added by the caller; oracle: independent rendering of the text the locale in force has for the type with the details of the error.", realAll, stubSched, []string{assumeInstr}},
	"C21": {"Runs: as C03 (a random schema, directed instances, interleaved tasks, seeded map orders); oracle: reference model of which errors must and may be reported, with type, location, value and details.", realAll, stubSched, []string{assumeInstr, assumeModel}},
	"C16": {"Runs: histories of registrations and compilations of conforming and non-conforming schemas with faults on custom meta-schemas; oracle: model evaluation of the meta-schema, and the Validate setting after each call.", realAll, both(stubNet, stubSched), []string{assumeInstr, assumeModel}},
}
