package main

type prop struct {
	Pkg     string // package under harness/checks
	Shards  int    // processes (default 8)
	Par     int    // how many of them run at a time (default 8)
	CLI     bool   // needs the ginkgo command and the fixture suite
	Retries int    // how often a failing case is tried again in a fresh process before it counts as not reproduced
}

var props = map[string]prop{
	"C01": {Pkg: "dsl"},
	"C02": {Pkg: "dsl"},
	"C03": {Pkg: "dsl"},
	"C04": {Pkg: "locations"},
	"C05": {Pkg: "config"},
	"C06": {Pkg: "progress"},
	"C07": {Pkg: "dsl"},
	"C08": {Pkg: "entry"},
	"E01": {Pkg: "engine"},
	"E02": {Pkg: "engine"},
	"E03": {Pkg: "engine"},
	"E04": {Pkg: "engine"},
	"E05": {Pkg: "engine"},
	"E06": {Pkg: "engine"},
	"E07": {Pkg: "engine"},
	"E08": {Pkg: "engine"},
	"E10": {Pkg: "engine", Shards: 24, Par: 24, Retries: 3},
	"E11": {Pkg: "engine", Retries: 3},
	"E09": {Pkg: "engine"},
	"E12": {Pkg: "engine"},
	"E13": {Pkg: "engine"},
	"S01": {Pkg: "engine"},
	"S02": {Pkg: "engine"},
	"S03": {Pkg: "engine"},
	"P01": {Pkg: "parallel"},
	"P02": {Pkg: "parallel"},
	"P03": {Pkg: "parallel"},
	"P04": {Pkg: "parallel"},
	"P05": {Pkg: "parallel"},
	"P06": {Pkg: "parallel"},
	"R01": {Pkg: "reports"},
	"R02": {Pkg: "reports"},
	"R03": {Pkg: "reports"},
	"R04": {Pkg: "reports"},
	"R07": {Pkg: "reports"},
	"R08": {Pkg: "reports"},
	"R05": {Pkg: "unit"},
	"R06": {Pkg: "unit"},
	"P07": {Pkg: "unit"},
	"T01": {Pkg: "tools"},
	"T06": {Pkg: "cli", CLI: true},
	"T07": {Pkg: "cli", CLI: true},
	"T10": {Pkg: "cli", CLI: true},
	"T08": {Pkg: "watch"},
	"T09": {Pkg: "config"},
	"T02": {Pkg: "tools"},
	"T03": {Pkg: "tools"},
	"T05": {Pkg: "tools"},
	"T04": {Pkg: "tools"},
}
