//go:build cli

package main

import (
	"fmt"
	"io"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/childe/healer/command/healer/cmd"
	"github.com/childe/healer/kfake"
	"github.com/childe/healer/kref"
	"github.com/childe/healer/vrt"
)

// runCLI runs the command line tool; the exit code and what it printed.
func runCLI(args ...string) (code int, lines []string) {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	old, oldArgs := os.Stdout, os.Args
	os.Stdout, os.Args = w, append([]string{"healer"}, args...)
	got := make(chan []byte, 1)
	go func() { b, _ := io.ReadAll(r); got <- b }()
	func() {
		defer func() {
			if e := recover(); e != nil {
				c, ok := e.(vrt.ExitCode)
				if !ok {
					os.Stdout = old
					panic(e)
				}
				code = int(c)
			}
		}()
		cmd.Execute()
	}()
	os.Stdout, os.Args = old, oldArgs
	w.Close()
	for _, l := range strings.Split(string(<-got), "\n") {
		if strings.TrimSpace(l) != "" {
			lines = append(lines, l)
		}
	}
	return code, lines
}

// cliWorld: topic t with n partitions (the second is empty, the third does not
// start at 0), topic u with one; groups ga, g.a, g+a, gab, gxa and other.
func cliWorld(t *T, n int, leader func(i int) int32) *kfake.Cluster {
	cl := t.Cluster(2)
	ls := make([]int32, n)
	for i := range ls {
		ls[i] = leader(i)
	}
	tp := cl.AddTopic("t", ls...)
	for i, p := range tp.Parts {
		k, start := []int{3, 0, 2}[i], []int64{0, 4, 10}[i]
		p.Start, p.End = start, start
		for j := 0; j < k; j++ {
			o := p.End
			p.AddBatch(kref.BatchOpts{BaseOffset: o, LastOffset: o}, []kref.Rec{{Offset: o, Timestamp: int64(1000 + 10*j + i), Value: []byte("v")}})
		}
	}
	cl.AddTopic("u", 2).Parts[0].AddRecs("a", "b")
	cl.AddTopic("other", 1).Parts[0].AddRecs("a", "b", "c", "d")
	cl.Coord = func(g string) int32 {
		if g == "g.a" {
			return 2
		}
		return 1
	}
	return cl
}

// members of a group: partition i of t belongs to member i%2, u to the second.
func cliMembers(g *kfake.Group, n int) {
	as := []map[string]A{{}, {}}
	for i := 0; i < n; i++ {
		as[i%2]["t"] = append(as[i%2]["t"], i)
	}
	as[1]["u"] = A{0}
	for i, a := range as {
		var names []string
		for k := range a {
			names = append(names, k)
		}
		sort.Strings(names)
		ts := A{}
		for _, k := range names {
			ts = append(ts, M{"topic": k, "partitions": a[k]})
		}
		id := fmt.Sprintf("m%d", i)
		g.Members[id] = &kfake.Member{ID: id, Ghost: true, Session: time.Hour, Meta: kref.EncodeStruct(kref.MemberMetaSchema, M{"version": 0, "topics": A{"t", "u"}, "user_data": nil}),
			Assign: kref.EncodeStruct(kref.AssignmentSchema, M{"version": 0, "topics": ts, "user_data": []byte{}})}
	}
	// one that just came
	g.Members["m"] = &kfake.Member{ID: "m", Ghost: true, Session: time.Hour, Meta: g.Members["m0"].Meta, Assign: []byte{}}
	g.State = kfake.Stable
}

// checkPending checks the output of get-pending.  want holds group and topic
// of the blocks that have to be printed (each all or nothing if faulty).
func checkPending(t *T, lines []string, want [][2]string, total, header, faulty bool, member func(g, tp string, p int32) string) {
	type row struct{ end, com, lag int64 }
	rows := map[string]row{}
	totals := map[string]row{}
	num := func(s string) int64 {
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			t.Fail("not a number in the output: %q", s)
		}
		return v
	}
	headers := 0
	for _, l := range lines {
		f := strings.Fields(l)
		switch {
		case len(f) >= 1 && f[0] == "timestamp":
			headers++
		case len(f) == 6 && f[0] == "TOTAL":
			k := f[2] + "/" + f[1]
			if _, ok := totals[k]; ok {
				t.Fail("two totals of %s", k)
			}
			totals[k] = row{num(f[3]), num(f[4]), num(f[5])}
		case len(f) == 7 || len(f) == 8:
			k := f[2] + "/" + f[1] + "/" + f[3]
			if _, ok := rows[k]; ok {
				t.Fail("%s is printed twice", k)
			}
			rows[k] = row{num(f[4]), num(f[5]), num(f[6])}
			m := ""
			if len(f) == 8 {
				m = f[7]
			}
			if w := member(f[2], f[1], int32(num(f[3]))); m != w {
				t.Fail("%s: member %q, want %q", k, m, w)
			}
		default:
			t.Fail("unexpected line %q", l)
		}
	}
	n := 0
	for _, w := range want {
		g := t.Cl.Group(w[0])
		var sum row
		have, all := 0, 0
		for _, p := range t.Cl.Topics[w[1]].Parts {
			all++
			k := fmt.Sprintf("%s/%s/%d", w[0], w[1], p.ID)
			r := row{p.End, g.CommittedOffset(w[1], p.ID), p.End - g.CommittedOffset(w[1], p.ID)}
			if t.unknownEnd[p.ID] && w[1] == "t" {
				r.end, r.lag = -1, 0
			}
			sum.end, sum.com, sum.lag = sum.end+r.end, sum.com+r.com, sum.lag+r.lag
			got, ok := rows[k]
			if ok {
				have++
				delete(rows, k)
				if got != r {
					t.Fail("%s: printed %v, want %v", k, got, r)
				}
			}
		}
		if have != all && !(faulty && have == 0) {
			t.Fail("%s/%s: %d of %d partitions are printed", w[0], w[1], have, all)
		}
		k := w[0] + "/" + w[1]
		got, ok := totals[k]
		delete(totals, k)
		if ok && got != sum {
			t.Fail("total of %s: %v, want %v", k, got, sum)
		}
		if ok != (total && have > 0) {
			t.Fail("total of %s printed: %v", k, ok)
		}
		if have > 0 {
			n++
		}
	}
	for k, r := range rows {
		t.Fail("%s: %v should not be printed", k, r)
	}
	for k, r := range totals {
		t.Fail("total of %s: %v should not be printed", k, r)
	}
	if header && headers != n || !header && headers > 0 {
		t.Fail("%d headers for %d blocks", headers, n)
	}
}

// pendingArgs chooses how groups and topic are selected.
func pendingArgs(t *T, sel int) (args []string, want [][2]string, byTopic bool) {
	args = []string{"get-pending", "-b", t.Cl.Bootstrap()}
	groups := []string{"ga"}
	topic := "t"
	switch sel {
	case 0:
		args = append(args, "-g", "ga", "-t", "t")
	case 1:
		args = append(args, "-g", "g.a", "-t", "t")
		groups = []string{"g.a"}
	case 2:
		args = append(args, "-g", "ga")
		topic = ""
	case 3:
		args = append(args, "-g", "g*", "-t", "t")
		groups = []string{"g+a", "g.a", "ga", "gab", "gxa"}
	case 4:
		args = append(args, "-g", "g.*", "-t", "t")
		groups = []string{"g.a"}
	case 5:
		args = append(args, "-t", "u")
		topic = "u"
		groups = []string{"g+a", "g.a", "ga", "gab", "gxa", "other"}
	case 6:
		topic = ""
		groups = []string{"g+a", "g.a", "ga", "gab", "gxa", "other"}
	case 8:
		args = append(args, "-g", "g+*", "-t", "t")
		groups = []string{"g+a"}
	case 7:
		args = append(args, "-g", "*a", "-t", "u")
		topic = "u"
		groups = []string{"g+a", "g.a", "ga", "gxa"}
	case 9:
		args = append(args, "-g", "g*a", "-t", "t")
		groups = []string{"g+a", "g.a", "ga", "gxa"}
	}
	for _, g := range groups {
		for _, tp := range []string{"t", "u"} {
			if topic == tp || topic == "" && len(t.Cl.Group(g).Members) > 0 {
				want = append(want, [2]string{g, tp})
			}
		}
	}
	return args, want, topic != ""
}

func cliGroups(cl *kfake.Cluster, n int) {
	for _, g := range []string{"g+a", "g.a", "ga", "gab", "gxa", "other"} {
		cl.Group(g)
	}
	cliMembers(cl.Group("ga"), n)
	cl.Group("g.a").SetCommitted("t", 0, 2)
	cl.Group("gxa").SetCommitted("t", 0, 1)
	cl.Group("ga").SetCommitted("u", 0, 1)
	cl.Group("g.a").SetCommitted("u", 0, 2)
}

func init() {
	caps := map[byte]int{'S': 0}
	member := func(byTopic bool) func(g, tp string, p int32) string {
		return func(g, tp string, p int32) string {
			if byTopic {
				return ""
			}
			if tp == "u" {
				return "m1"
			}
			return fmt.Sprintf("m%d", p%2)
		}
	}
	cliFaults := func(t *T) {
		t.Faults(func(c *kfake.Call) []*kfake.Fault {
			fs := netFaults()
			switch c.Name() {
			case "Metadata":
				fs = append(fs, errFaults(3, 5)...)
			case "ListOffsets":
				fs = append(fs, errFaults(6, 3)...)
			case "FindCoordinator":
				fs = append(fs, errFaults(15)...)
			case "OffsetFetch", "OffsetCommit":
				fs = append(fs, errFaults(16, 14)...)
			case "DescribeGroups", "ListGroups":
				fs = append(fs, errFaults(15, 16)...)
			}
			return fs
		})
		t.DialFaults(func() bool { return true })
	}

	reg(&Scenario{Prop: "P23", Name: "pending-inputs", Fresh: true, Quick: Bound{Dev: 0, Caps: caps}, Thorough: Bound{Dev: 1, Caps: caps}, Run: func(t *T) {
		n := 1 + vrt.Input(3)
		sel := vrt.Input(10)
		lay := 0
		if sel == 0 || t.tier == "thorough" {
			lay = vrt.Input(1 << n)
		} else {
			lay = []int{0, 1, 5}[n-1]
		}
		cl := cliWorld(t, n, func(i int) int32 { return int32(1 + lay>>i&1) })
		cliGroups(cl, n)
		for i := 0; i < n; i++ {
			kinds := 3
			if i == 0 {
				kinds = 4
			}
			switch p := cl.Part("t", int32(i)); vrt.Input(kinds) {
			case 1:
				cl.Group("ga").SetCommitted("t", p.ID, p.Start)
			case 2:
				cl.Group("ga").SetCommitted("t", p.ID, p.End)
			case 3: // the log was cut behind it
				cl.Group("ga").SetCommitted("t", p.ID, p.End+4)
			}
		}
		if sel == 0 {
			if u := vrt.Input(n + 1); u > 0 {
				t.unknownEnd = map[int32]bool{int32(u - 1): true}
				cl.EndUnknown = t.unknownEnd
			}
		}
		args, want, byTopic := pendingArgs(t, sel)
		total, header := sel%2 == 0, sel != 3
		if total {
			args = append(args, "--total")
		}
		if !header {
			args = append(args, "--header=false")
		}
		code, lines := runCLI(args...)
		if code != 0 {
			t.Fail("exit code %d", code)
		}
		checkPending(t, lines, want, total, header, false, member(byTopic))
		t.Out("%v %d", args[2:], len(lines))
		t.CheckBad()
	}})
	reg(&Scenario{Prop: "P23", Name: "pending-faults", Fresh: true, Quick: Bound{Dev: 1, Caps: caps}, Thorough: Bound{Dev: 2, Caps: caps}, Horizon: 4 * time.Hour, Run: func(t *T) {
		sel := []int{0, 2, 3}[vrt.Input(3)]
		cl := cliWorld(t, 3, func(i int) int32 { return int32(1 + i%2) })
		cliGroups(cl, 3)
		cl.Group("ga").SetCommitted("t", 0, 1)
		cl.Group("ga").SetCommitted("t", 2, 11)
		cliFaults(t)
		args, want, byTopic := pendingArgs(t, sel)
		_, lines := runCLI(append(args, "--total")...)
		checkPending(t, lines, want, true, true, t.nf > 0, member(byTopic))
		t.Out("%d %d", sel, len(lines))
	}})

	reset := func(t *T, np int, lay int, faulty bool) {
		cl := cliWorld(t, np, func(i int) int32 { return int32(1 + lay>>i&1) })
		cliGroups(cl, np)
		g := cl.Group([]string{"g.a", "gxa", "new", "ga"}[vrt.Input(4)])
		ts := []int64{-2, -1, 0, 1000, 1010, 1011, 5000}[vrt.Input(7)]
		nsel := 5
		if faulty {
			nsel = 4
		}
		sel := [][]int32{nil, {0}, {int32(np - 1), 0}, {int32(np - 1)}, {0, int32(np)}}[vrt.Input(nsel)]
		args := []string{"reset-offset", "-b", cl.Bootstrap(), "-t", "t", "-g", g.Name, fmt.Sprintf("--timestamp=%d", ts)}
		for _, p := range sel {
			args = append(args, "-p", fmt.Sprint(p))
		}
		if faulty {
			cliFaults(t)
		}
		before := map[string]int64{}
		for k, v := range g.Committed {
			before[k] = v
		}
		lookupFailed := false
		if faulty {
			pick := cl.Decide
			cl.Decide = func(c *kfake.Call) *kfake.Fault {
				f := pick(c)
				if f != nil && c.Name() == "ListOffsets" {
					lookupFailed = true
				}
				return f
			}
		}
		code, _ := runCLI(args...)
		want := map[string]int64{}
		none := false // the cluster knows no offset for the time
		for i, p := range cl.Topics["t"].Parts {
			in := len(sel) == 0
			for _, s := range sel {
				in = in || s == int32(i)
			}
			if in {
				o := p.OffsetFor(ts)
				none = none || o < 0
				want[fmt.Sprintf("t-%d", i)] = o
			}
		}
		if len(sel) > 1 && sel[1] == int32(np) { // there is no such partition
			none = true
		}
		t.Out("%v %d", args[3:], code)
		asked := g.Commits
		for _, other := range []string{"g+a", "g.a", "ga", "gab", "gxa", "other", "new"} {
			if other != g.Name && len(cl.Group(other).Commits) > 0 {
				t.Fail("offsets of the group %s are committed", other)
			}
		}
		for _, c := range asked {
			k := fmt.Sprintf("%s-%d", c.Topic, c.Part)
			if o, ok := want[k]; !ok {
				t.Fail("%s is committed, it is not selected", k)
			} else if o != c.Offset {
				t.Fail("%s: %d is committed, the cluster returned %d", k, c.Offset, o)
			}
		}
		if lookupFailed || none {
			if len(asked) > 0 {
				t.Fail("offsets are committed though the lookup failed")
			}
			if code == 0 {
				t.Fail("success is reported though the lookup failed")
			}
			return
		}
		if code == 0 {
			for k, o := range want {
				if v, ok := g.Committed[k]; !ok || v != o {
					t.Fail("%s is not reset: %d, want %d", k, v, o)
				}
			}
		} else if !faulty && len(g.Members) == 0 {
			t.Fail("exit code %d", code)
		}
		for k, v := range before {
			if _, ok := want[k]; !ok && g.Committed[k] != v {
				t.Fail("%s changes from %d to %d", k, v, g.Committed[k])
			}
		}
	}
	reg(&Scenario{Prop: "P23", Name: "reset-inputs", Fresh: true, Quick: Bound{Dev: 0, Caps: caps}, Thorough: Bound{Dev: 1, Caps: caps}, Run: func(t *T) {
		np := 1 + vrt.Input(3)
		lay := vrt.Input(1 << np)
		if t.tier != "thorough" && np == 3 && lay != 0 && lay != 5 && lay != 6 {
			t.Trivial()
			return
		}
		reset(t, np, lay, false)
		t.CheckBad()
	}})
	reg(&Scenario{Prop: "P23", Name: "reset-faults", Fresh: true, Quick: Bound{Dev: 1, Caps: caps}, Thorough: Bound{Dev: 1, Caps: caps}, Horizon: 4 * time.Hour, Run: func(t *T) {
		reset(t, 2, 2, true)
	}})

	offsets := func(t *T, np, lay int, faulty bool) {
		cl := cliWorld(t, np, func(i int) int32 { return int32(1 + lay>>i&1) })
		ts := []int64{-2, -1, 0, 1000, 1010, 1011, 5000}[vrt.Input(7)]
		if faulty {
			cliFaults(t)
		}
		code, lines := runCLI("get-offsets", "-b", cl.Bootstrap(), "-t", "t", fmt.Sprintf("--timestamp=%d", ts))
		t.Out("%d %d %d", ts, code, len(lines))
		if code != 0 {
			if t.nf == 0 {
				t.Fail("exit code %d", code)
			}
			if len(lines) > 0 {
				t.Fail("it fails, and prints %q", lines)
			}
			return
		}
		var want []string
		for i, p := range cl.Topics["t"].Parts {
			o := p.OffsetFor(ts)
			rts := int64(-1)
			if rs := p.Recs(o); ts >= 0 && o >= 0 && len(rs) > 0 {
				rts = rs[0].Timestamp
			}
			want = append(want, fmt.Sprintf("t:%d:%d %d", i, rts, o))
		}
		if fmt.Sprint(lines) != fmt.Sprint(want) {
			t.Fail("printed %q, want %q", lines, want)
		}
	}
	reg(&Scenario{Prop: "P23", Name: "offsets-inputs", Fresh: true, Quick: Bound{Dev: 1, Caps: caps}, Thorough: Bound{Dev: 2, Caps: caps}, Run: func(t *T) {
		np := 1 + vrt.Input(3)
		offsets(t, np, vrt.Input(1<<np), false)
		t.CheckBad()
	}})
	reg(&Scenario{Prop: "P23", Name: "offsets-faults", Fresh: true, Quick: Bound{Dev: 1, Caps: caps}, Thorough: Bound{Dev: 2, Caps: caps}, Horizon: 4 * time.Hour, Run: func(t *T) {
		offsets(t, 3, 2, true)
	}})
}
