//go:build cli

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/childe/healer/command/healer/cmd"
	"github.com/childe/healer/kfake"
	"github.com/childe/healer/kref"
	"github.com/childe/healer/vrt"
)

// cliRun is a command that runs in the background.
type cliRun struct {
	out  *os.File
	done bool
	code int
}

func scratch(content string) *os.File {
	f, err := os.CreateTemp("", "verif-cli")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	f.WriteString(content)
	f.Seek(0, 0)
	return f
}

// text is what the command has printed so far.
func (r *cliRun) text() string {
	n, _ := r.out.Seek(0, 1)
	b := make([]byte, n)
	r.out.ReadAt(b, 0)
	return string(b)
}

func (r *cliRun) lines() []string {
	s := r.text()
	if s == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
}

func startCLI(stdin string, args ...string) *cliRun {
	r := &cliRun{out: scratch("")}
	in := scratch(stdin)
	os.Stdout, os.Stdin, os.Args = r.out, in, append([]string{"healer"}, args...)
	vrt.OnExit = func(code int) {
		if !r.done {
			r.code, r.done = code, true
		}
	}
	vrt.GoNamed("healer "+args[0], func() {
		cmd.Execute()
		r.done = true
	})
	return r
}

// conWorld: topic t with three partitions, the second compacted, the third not
// starting at 0; topic u.
func conWorld(t *T) *kfake.Cluster {
	cl := t.Cluster(2)
	tp := cl.AddTopic("t", 1, 2, 1)
	tp.Parts[0].AddRecs("a0", "", "a2", "a3")
	for _, o := range []int64{0, 2, 5} {
		tp.Parts[1].AddBatch(kref.BatchOpts{BaseOffset: o, LastOffset: o}, []kref.Rec{{Offset: o, Timestamp: 77, Key: []byte("k"), Value: []byte(fmt.Sprintf("b%d: \"x\"", o))}})
	}
	tp.Parts[1].AddBatch(kref.BatchOpts{BaseOffset: 6, LastOffset: 6}, []kref.Rec{{Offset: 6, Timestamp: 78, Key: []byte("k"), Value: nil}}) // deleted by compaction later
	p := tp.Parts[2]
	p.Start, p.End = 40, 40
	p.AddRecs("c40")
	cl.AddTopic("u", 2).Parts[0].AddRecs("u0")
	return cl
}

type conRec struct {
	topic string
	part  int32
	off   int64
	val   string
}

func recsOf(from int64, ps ...*kfake.Part) (o []conRec) {
	for _, p := range ps {
		for _, r := range p.Recs(p.Start) {
			if r.Offset >= from {
				o = append(o, conRec{p.Topic, p.ID, r.Offset, string(r.Value)})
			}
		}
	}
	return
}

// jsonRec reads a line printed with --json; full: with topic and partition.
func jsonRec(t *T, l string, full bool) (r conRec) {
	type msg struct {
		Offset int64
		Value  []byte
	}
	var m struct {
		TopicName   string
		PartitionID int32
		Message     *msg
	}
	m.Message = &msg{}
	var err error
	if full {
		err = json.Unmarshal([]byte(l), &m)
	} else {
		err = json.Unmarshal([]byte(l), m.Message)
	}
	if err != nil || m.Message == nil {
		t.Fail("not a message in json: %q", l)
		return
	}
	return conRec{m.TopicName, m.PartitionID, m.Message.Offset, string(m.Message.Value)}
}

// printed checks that the lines are n of the records, each once, those of a
// partition in order and without a hole.
func (t *T) printed(lines []string, recs []conRec, n int, show func(r conRec) string) {
	if len(lines) != n {
		t.Fail("%s: printed %q, %d lines are expected", t.Sample, lines, n)
	}
	left := map[int32][]conRec{}
	for _, r := range recs {
		left[r.part] = append(left[r.part], r)
	}
next:
	for i, l := range lines {
		for p := int32(0); p < 4; p++ {
			if q := left[p]; len(q) > 0 && show(q[0]) == l {
				left[p] = q[1:]
				continue next
			}
		}
		t.Fail("%s: line %d of %q is not the next record of a partition", t.Sample, i, lines)
		return
	}
}

func init() {
	caps := map[byte]int{'S': 0}
	conFaults := func(t *T, n int) {
		t.Faults(func(c *kfake.Call) []*kfake.Fault {
			fs := netFaults()[:n]
			switch c.Name() {
			case "Fetch":
				fs = append(fs, errFaults(6, 7)...)
			case "ListOffsets":
				fs = append(fs, errFaults(6)...)
			case "Metadata":
				return fs[:1]
			case "ApiVersions", "Produce":
				return nil
			case "JoinGroup", "SyncGroup", "OffsetFetch", "OffsetCommit":
				fs = append(fs, errFaults(16, 14)...)
			}
			return fs
		})
	}
	// simple-consumer: all selections, formats and limits
	simple := func(faults bool) func(t *T) {
		return func(t *T) {
			cl := conWorld(t)
			part := int32(vrt.Input(3))
			p := cl.Part("t", part)
			start := []int64{-2, -1, p.Start, min(p.Start+2, p.End)}[vrt.Input(4)]
			form := vrt.Input(4)
			max := []int{-1, 1, 2, 3}[vrt.Input(4)]
			stop := []int64{0, p.Start + 2, p.Start + 5}[vrt.Input(3)]
			if faults && (form > 0 || part > 1 || t.tier == "quick" && (max != 2 && stop == 0 || max > 0 && stop > 0)) {
				t.Trivial()
				return
			}
			if max < 0 && stop == 0 {
				max = 5
			}
			args := []string{"simple-consumer", "-b", cl.Bootstrap(), "-t", "t", "--config", `{"fetch.max.wait.ms":"2000","retry.backoff.ms":"50"}`}
			if part > 0 {
				args = append(args, "--partition", fmt.Sprint(part))
			}
			if start != -1 {
				args = append(args, "--offset", fmt.Sprint(start))
			}
			if max >= 0 {
				args = append(args, "--max-messages", fmt.Sprint(max))
			}
			if stop > 0 {
				args = append(args, "--stopoffset", fmt.Sprint(stop))
			}
			end := p.End
			show := func(r conRec) string { return fmt.Sprintf("%d: %s", r.off, r.val) }
			switch form {
			case 1:
				args = append(args, "--printoffset=false")
				show = func(r conRec) string { return r.val }
			case 2:
				args = append(args, "--json")
			case 3:
				args = append(args, "--json=true", "--printoffset=false")
			}
			t.Sample = strings.Join(args, " ")
			if faults {
				conFaults(t, 3)
			}
			r := startCLI("", args...)
			vrt.Sleep(20 * time.Second)
			from := start
			if start == -1 {
				from = end
			}
			// what is printed of the records there were
			want := func() (o []conRec, fin bool) {
				for _, rec := range recsOf(from, p) {
					if stop > 0 && rec.off >= stop {
						return o, true
					}
					o = append(o, rec)
					if max >= 0 && len(o) == max {
						return o, true
					}
				}
				return o, false
			}
			check := func(when string) {
				vrt.Settle()
				ls := r.lines()
				w, fin := want()
				if form >= 2 {
					for i, l := range ls {
						g := jsonRec(t, l, false)
						g.topic, g.part = "t", part
						if i >= len(w) || g != w[i] {
							t.Fail("%s %s: line %d is %q, want %v", t.Sample, when, i, l, w)
							return
						}
					}
					if len(ls) != len(w) {
						t.Fail("%s %s: %d lines, want %v", t.Sample, when, len(ls), w)
					}
				} else {
					t.printed(ls, w, len(w), show)
				}
				if r.done != fin || r.code != 0 {
					t.Fail("%s %s: ended=%v (status %d) after %q", t.Sample, when, r.done, r.code, ls)
				}
			}
			check("at first")
			for i := 0; i < 2 && !r.done; i++ {
				p.AddRecs("n0", "n1", "n2", "n3")
				vrt.Sleep(20 * time.Second)
				check("later")
			}
			if !r.done && !faults {
				t.Fail("%s does not end", t.Sample)
			}
			t.Out("%s", r.text())
			t.CheckBad()
		}
	}
	reg(&Scenario{Prop: "P26", Name: "simple-consumer", Fresh: true, Quick: Bound{Dev: 0, Caps: caps}, Thorough: Bound{Dev: 0, Caps: caps}, MaxSteps: 100000, AllowDeadlock: true, Run: simple(false)})
	reg(&Scenario{Prop: "P26", Name: "simple-consumer-faults", Fresh: true, Quick: Bound{Dev: 1, Caps: caps}, Thorough: Bound{Dev: 2, Caps: caps}, MaxSteps: 100000, AllowDeadlock: true, Run: simple(true)})

	// console-consumer
	console := func(faults bool) func(t *T) {
		return func(t *T) {
			cl := conWorld(t)
			sel := vrt.Input(5)
			beginning := vrt.Input(2) == 1
			form := vrt.Input(3)
			max := []int{-1, 1, 2, 6}[vrt.Input(4)]
			if faults && (form > 0 || sel == 3 || t.tier == "quick" && (max < 0 || max == 1)) {
				t.Trivial()
				return
			}
			tp := cl.Topics["t"]
			args := []string{"console-consumer", "-b", cl.Bootstrap()}
			ps := []*kfake.Part{}
			switch sel {
			case 0:
				args, ps = append(args, "-t", "t"), tp.Parts
			case 1:
				args, ps = append(args, "-t", "t", "--partitions", "1"), tp.Parts[1:2]
			case 2:
				args, ps = append(args, "--topic", "t", "--partitions", "2,0"), []*kfake.Part{tp.Parts[0], tp.Parts[2]}
			case 3:
				args, ps = append(args, "-t", "t", "--partitions", "1", "--partitions", "2"), tp.Parts[1:]
			case 4:
				args, ps = append(args, "-t", "u"), cl.Topics["u"].Parts
			}
			cfg := `{"fetch.max.wait.ms":"2000","retry.backoff.ms":"50"}`
			froms := map[int32]int64{}
			if beginning {
				cfg = `{"fetch.max.wait.ms":"2000","retry.backoff.ms":"50","from.beginning":"true"}`
			}
			for _, p := range ps {
				froms[p.ID] = p.End
				if beginning {
					froms[p.ID] = p.Start
				}
			}
			args = append(args, "--config", cfg)
			if max >= 0 {
				args = append(args, "--max-messages", fmt.Sprint(max))
			}
			show := func(r conRec) string { return fmt.Sprintf("%d: %s", r.off, r.val) }
			switch form {
			case 1:
				args = append(args, "--printoffset=false")
				show = func(r conRec) string { return r.val }
			case 2:
				args = append(args, "--json")
			}
			t.Sample = strings.Join(args, " ")
			if faults {
				conFaults(t, 3)
			}
			r := startCLI("", args...)
			check := func(when string) {
				vrt.Settle()
				ls := r.lines()
				var w []conRec
				for _, p := range ps {
					w = append(w, recsOf(froms[p.ID], p)...)
				}
				n := len(w)
				if max >= 0 && n >= max {
					n = max
				}
				if r.done != (max >= 0 && n == max) || r.code != 0 {
					t.Fail("%s %s: ended=%v (status %d) after %q", t.Sample, when, r.done, r.code, ls)
				}
				if form == 2 {
					for i, l := range ls {
						g := jsonRec(t, l, true)
						ls[i] = fmt.Sprint(g)
					}
					t.printed(ls, w, n, func(r conRec) string { return fmt.Sprint(r) })
					return
				}
				t.printed(ls, w, n, show)
			}
			vrt.Sleep(20 * time.Second)
			check("at first")
			for _, p := range ps {
				p.AddRecs(fmt.Sprintf("n%d", p.ID), fmt.Sprintf("m%d", p.ID))
			}
			vrt.Sleep(20 * time.Second)
			check("later")
			t.Out("%s", r.text())
			t.CheckBad()
		}
	}
	reg(&Scenario{Prop: "P26", Name: "console-consumer", Fresh: true, Quick: Bound{Dev: 0, Caps: caps}, Thorough: Bound{Dev: 1}, MaxSteps: 100000, AllowDeadlock: true, Run: console(false)})
	reg(&Scenario{Prop: "P26", Name: "console-consumer-faults", Fresh: true, Quick: Bound{Dev: 1, Caps: caps}, Thorough: Bound{Dev: 2, Caps: caps}, MaxSteps: 100000, AllowDeadlock: true, Run: console(true)})

	// group-consumer: two runs, the first one ends after some records or by an interrupt
	group := func(faults bool) func(t *T) {
		return func(t *T) {
			cl := conWorld(t)
			g := cl.Group("g")
			tp := cl.Topics["t"]
			form := vrt.Input(2)
			max := []int{-1, 1, 2, 8}[vrt.Input(4)]
			interrupt, at := vrt.Input(3), 0
			if interrupt == 1 {
				at = 3 + vrt.Input(14)
			}
			if max == 8 && interrupt == 0 || faults && (form > 0 || t.tier == "quick" && (max == 1 || max == 8 || at%4 != 0)) {
				t.Trivial()
				return
			}
			run := func(max int) *cliRun {
				args := []string{"group-consumer", "-b", cl.Bootstrap(), "-t", "t", "-g", "g", "--config", `{"fetch.max.wait.ms":"2000","retry.backoff.ms":"50","from.beginning":"true","session.timeout.ms":"10000"}`}
				if max >= 0 {
					args = append(args, "--max-messages", fmt.Sprint(max))
				}
				if form == 1 {
					args = append(args, "--json")
				}
				t.Sample = strings.Join(args, " ")
				return startCLI("", args...)
			}
			if faults {
				conFaults(t, 3)
			}
			r := run(max)
			total := len(recsOf(0, tp.Parts...))
			switch {
			case interrupt == 1: // while it joins or consumes
				vrt.WaitUntil("calls", 30*time.Second, func() bool { return len(cl.Calls) >= at && vrt.Listening() })
			case interrupt == 2:
				vrt.Sleep(30 * time.Second)
			}
			if interrupt > 0 && !r.done {
				vrt.Signal(syscall.SIGINT)
			}
			// (a run without a limit that is not interrupted goes on)
			endless := interrupt == 0 && (max < 0 || max > total)
			if endless {
				vrt.Sleep(time.Minute)
			} else if !vrt.WaitUntil("end", 3*time.Minute, func() bool { return r.done }) {
				t.Fail("%s does not end (interrupt %d): %q", t.Sample, interrupt, r.text())
				return
			}
			if r.code != 0 {
				t.Fail("%s: status %d", t.Sample, r.code)
			}
			as := func(ls []string) (o []conRec) {
				for _, l := range ls {
					var c conRec
					if form == 1 {
						c = jsonRec(t, l, true)
					} else {
						f := strings.SplitN(l, ":", 4)
						if len(f) != 4 || !strings.HasPrefix(f[3], " ") {
							t.Fail("%s prints %q", t.Sample, l)
							continue
						}
						c.topic, c.val = f[0], f[3][1:]
						fmt.Sscan(f[1], &c.part)
						fmt.Sscan(f[2], &c.off)
					}
					o = append(o, c)
				}
				return
			}
			first := as(r.lines())
			show := func(rs []conRec) (o []string) {
				for _, c := range rs {
					o = append(o, fmt.Sprint(c))
				}
				return
			}
			n := len(first)
			switch {
			case endless || interrupt == 2 && max < 0:
				n = total
			case interrupt != 1:
				n = max
				if n > total {
					n = total
				}
			case max >= 0 && n > max:
				n = max
			}
			t.printed(show(first), recsOf(0, tp.Parts...), n, func(r conRec) string { return fmt.Sprint(r) })
			if endless {
				if r.done {
					t.Fail("%s ends by itself", t.Sample)
				}
				t.Out("%s", r.text())
				t.CheckBad()
				return
			}
			if !faults {
				// it has told what it has printed, and left
				if len(g.Members) > 0 && interrupt != 1 {
					t.Fail("%s: the group still has members %v", t.Sample, g.IDs())
				}
				for _, p := range tp.Parts {
					var last int64 = -1
					for _, c := range first {
						if c.part == p.ID {
							last = c.off + 1
						}
					}
					if c := g.CommittedOffset("t", p.ID); c > last && c > p.Start {
						t.Fail("%s: printed %v, committed %d of partition %d", t.Sample, first, c, p.ID)
					}
				}
			}
			r2 := run(1000000) // flags keep their values within a process
			var all []conRec
			vrt.WaitUntil("rest", 2*time.Minute, func() bool {
				all = append(append([]conRec{}, first...), as(r2.lines())...)
				return len(all) >= total
			})
			vrt.Sleep(5 * time.Second)
			second := as(r2.lines())
			seen := map[string]bool{}
			for _, c := range append(append([]conRec{}, first...), second...) {
				seen[fmt.Sprint(c)] = true
			}
			for _, c := range recsOf(0, tp.Parts...) {
				if !seen[fmt.Sprint(c)] {
					t.Fail("%v is not printed by either run: %v, then %v", c, first, second)
				}
			}
			if !faults && len(first)+len(second) != total && interrupt != 1 {
				t.Fail("records are printed twice: %v, then %v", first, second)
			}
			t.Out("%d %d", len(first), len(second))
			t.CheckBad()
		}
	}
	// the other consumers may have a group as well, whose offsets tell a later run where to go on
	reg(&Scenario{Prop: "P26", Name: "offsets-of-group", Fresh: true, Stall: 150 * time.Millisecond, Quick: Bound{Dev: 1, Caps: map[byte]int{'E': 0}}, Thorough: Bound{Dev: 2, Caps: map[byte]int{'E': 0}}, MaxSteps: 100000, AllowDeadlock: true, Run: func(t *T) {
		cl := conWorld(t)
		g := cl.Group("g")
		parts := cl.Topics["t"].Parts
		name := []string{"simple-consumer", "console-consumer"}[vrt.Input(2)]
		part := vrt.Input(len(parts) + 1)
		args := []string{name, "-b", cl.Bootstrap(), "-t", "t", "--config", `{"fetch.max.wait.ms":"2000","retry.backoff.ms":"50","from.beginning":"true","group.id":"g","auto.commit.interval.ms":"100"}`}
		if part < len(parts) {
			if name == "simple-consumer" {
				args = append(args, "--partition", fmt.Sprint(part), "--offset=-2")
			} else {
				args = append(args, "--partitions", fmt.Sprint(part))
			}
			parts = parts[part : part+1]
		} else if name == "simple-consumer" {
			t.Trivial()
			return
		}
		total := len(recsOf(0, parts...))
		max := 1 + vrt.Input(4)
		if max > total {
			t.Trivial()
			return
		}
		run := func(max int) *cliRun { return startCLI("", append(args, "--max-messages", fmt.Sprint(max))...) }
		t.Sample = strings.Join(args, " ")
		if t.tier == "quick" && (part == 0 && max != 2 || part == 1 || part == 3 && max != 4) {
			vrt.Quiet(true)
		}
		r := run(max)
		if !vrt.WaitUntil("end", 3*time.Minute, func() bool { return r.done }) {
			t.Fail("%s does not end", t.Sample)
			return
		}
		vrt.Quiet(true)
		if r.code != 0 || len(r.lines()) != max {
			t.Fail("%s: status %d, prints %q", t.Sample, r.code, r.lines())
			return
		}
		// with this the process has ended
		com := map[string]int64{}
		for k, v := range g.Committed {
			com[k] = v
		}
		vrt.Sleep(time.Second)
		for k := range g.Committed {
			delete(g.Committed, k)
		}
		for k, v := range com {
			g.Committed[k] = v
		}
		r2 := run(1000000)
		vrt.Sleep(10 * time.Second)
		seen := map[string]int{}
		for _, l := range append(r.lines(), r2.lines()...) {
			seen[l]++
		}
		for _, c := range recsOf(0, parts...) {
			if l := fmt.Sprintf("%d: %s", c.off, c.val); seen[l] == 0 {
				t.Fail("%s: %q is not printed by either run: %q, then %q", t.Sample, l, r.lines(), r2.lines())
			} else if seen[l] > 1 && name == "simple-consumer" {
				t.Fail("%s: %q is printed twice: %q, then %q", t.Sample, l, r.lines(), r2.lines())
			}
		}
		t.Out("%d %d", len(r.lines()), len(r2.lines()))
		t.CheckBad()
	}})

	reg(&Scenario{Prop: "P26", Name: "group-consumer", Fresh: true, Quick: Bound{Dev: 0, Caps: caps}, Thorough: Bound{Dev: 1}, MaxSteps: 100000, AllowDeadlock: true, Run: group(false)})
	reg(&Scenario{Prop: "P26", Name: "group-consumer-faults", Fresh: true, Quick: Bound{Dev: 1, Caps: caps}, Thorough: Bound{Dev: 2, Caps: caps}, MaxSteps: 100000, AllowDeadlock: true, Run: group(true)})

	// producers: every line becomes one message
	long := strings.Repeat("x", 60000)
	inputs := []string{"", "a", "a\n", "\n", "a\nb\nc\n", "a\n\n\nb", "key:v\n\x00\xff\xfe\n漢\n", " a \t\nb\n", long + "\nb\n", strings.Repeat("l\n", 11), "a\n" + long + long + "\nb\n", "1\n2\n3\n4\n5\n6\n7"}
	many := ""
	for i := 0; i < 700; i++ {
		many += fmt.Sprintf("line %d\n", i)
	}
	produceOf := func(faults bool, inputs []string) func(t *T) {
		return func(t *T) {
			in := inputs[vrt.Input(len(inputs))]
			which := vrt.Input(3)
			cfgi := vrt.Input(5)
			if faults && (len(in) > 20 || in == "" || which > 1) {
				t.Trivial()
				return
			}
			cl := t.Cluster(2)
			tp := cl.AddTopic("t", 1, 2, 2)
			args := []string{[]string{"console-producer", "simple-producer", "simple-producer"}[which], "-b", cl.Bootstrap(), "-t", "t"}
			if which == 2 {
				args = append(args, "--partition", "2")
			}
			cfg := []string{"", `{"message.max.count":"2"}`, `{"compress.type":"gzip","message.max.count":3}`, `{"acks":"0"}`, `{"acks":"-1","message.max.count":"1"}`}[cfgi]
			if cfg != "" {
				args = append(args, "--config", cfg)
			}
			t.Sample = fmt.Sprintf("%s < %.40q", strings.Join(args, " "), in)
			want := strings.Split(in, "\n")
			if want[len(want)-1] == "" {
				want = want[:len(want)-1]
			}
			if faults {
				if cfgi == 3 {
					t.Trivial()
					return
				}
				t.Faults(func(c *kfake.Call) []*kfake.Fault {
					if c.Name() == "Produce" {
						return append(netFaults()[:3], errFaults(6, 7, 2)...)
					}
					if c.Name() == "ApiVersions" {
						return nil
					}
					return netFaults()[:3]
				})
			}
			r := startCLI(in, args...)
			if !vrt.WaitUntil("end", 10*time.Minute, func() bool { return r.done }) {
				t.Fail("%s does not end", t.Sample)
				return
			}
			vrt.Sleep(5 * time.Second)
			got := map[string]int{}
			n := 0
			for _, p := range tp.Parts {
				i := 0
				for _, rec := range p.Recs(p.Start) {
					n++
					v := string(rec.Value)
					got[v]++
					if rec.Key != nil {
						t.Fail("%s: record with the key %q", t.Sample, rec.Key)
					}
					if which > 0 && p.ID != int32(2*(which-1)) {
						t.Fail("%s: record in partition %d", t.Sample, p.ID)
					}
					for i < len(want) && want[i] != v {
						i++
					}
					if i == len(want) {
						t.Fail("%s: partition %d has %.60q, which is not in the order of the lines", t.Sample, p.ID, v)
					}
					i++
				}
			}
			if len(in) > 2*len(long) { // a line too long: refused, nothing behind it is sent
				if r.code == 0 || n > 1 {
					t.Fail("%s: status %d, %d records", t.Sample, r.code, n)
				}
				t.Out("%d %d", r.code, n)
				return
			}
			var lost []string
			cnt := map[string]int{}
			for _, l := range want {
				cnt[l]++
			}
			for l, k := range cnt {
				if got[l] < k {
					lost = append(lost, l)
				}
				if got[l] > k && !faults {
					t.Fail("%s: %.40q is stored %d times", t.Sample, l, got[l])
				}
			}
			sort.Strings(lost)
			if len(lost) > 0 && r.code == 0 || !faults && r.code != 0 {
				t.Fail("%s: status %d, lost %.200q", t.Sample, r.code, lost)
			}
			t.Out("%d %d %d", r.code, n, len(lost))
			t.CheckBad()
		}
	}
	produce := func(faults bool) func(t *T) { return produceOf(faults, inputs) }
	// more lines than the input buffer and than a batch takes
	reg(&Scenario{Prop: "P26", Name: "producers-long", Fresh: true, Quick: Bound{Dev: 0, Caps: caps}, Thorough: Bound{Dev: 0, Caps: caps}, MaxSteps: 1000000, AllowDeadlock: true, Run: produceOf(false, []string{many, many + many})})
	reg(&Scenario{Prop: "P26", Name: "producers", Fresh: true, Quick: Bound{Dev: 0, Caps: caps}, Thorough: Bound{Dev: 1}, MaxSteps: 100000, AllowDeadlock: true, Run: produce(false)})
	reg(&Scenario{Prop: "P26", Name: "producers-faults", Fresh: true, Quick: Bound{Dev: 1, Caps: caps}, Thorough: Bound{Dev: 2, Caps: caps}, MaxSteps: 100000, AllowDeadlock: true, Run: produce(true)})

	// what is not understood is refused, and nothing is sent
	reg(&Scenario{Prop: "P26", Name: "refused", Fresh: true, Quick: Bound{Dev: 0, Caps: caps}, Thorough: Bound{Dev: 0, Caps: caps}, MaxSteps: 100000, AllowDeadlock: true, Run: func(t *T) {
		cl := conWorld(t)
		name := []string{"console-producer", "simple-producer", "console-consumer", "simple-consumer", "group-consumer"}[vrt.Input(5)]
		args := []string{name, "-b", cl.Bootstrap()}
		topic, grp := []string{"-t", "t"}, []string{}
		if name == "group-consumer" {
			grp = []string{"-g", "g"}
		}
		switch vrt.Input(6) {
		case 0:
			topic = nil
		case 1:
			args = append(args, "--config", `{"client.id":"x"`)
		case 2:
			args = append(args, "--config", `{"client.id"="x"}`)
		case 3:
			args = append(args, "--config", `[1]`)
		case 4:
			args = append(args, "--nosuch")
		case 5:
			if name != "group-consumer" {
				t.Trivial()
				return
			}
			grp = nil
		}
		args = append(append(args, topic...), grp...)
		t.Sample = strings.Join(args, " ")
		r := startCLI("line\n", args...)
		vrt.WaitUntil("end", time.Minute, func() bool { return r.done })
		if !r.done || r.code == 0 {
			t.Fail("%s: ended=%v, status %d", t.Sample, r.done, r.code)
		}
		for _, c := range cl.Calls {
			switch c.Name() {
			case "Produce", "Fetch", "JoinGroup":
				t.Fail("%s sends %s", t.Sample, c.Name())
				return
			}
		}
		t.Out("%d", r.code)
	}})
}
