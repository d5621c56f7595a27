package sc

import (
	"errors"
	"flag"
	"fmt"
	"io"
	"strings"
	"time"

	"harness/core"
	"simrt"

	"github.com/skycoin/cxo/node/log"
)

// l01out is an output that accepts bytes slowly, in pieces, and may refuse a whole write.
type l01out struct {
	name  string
	buf   []byte
	failP int64
	slow  int64
	lost  []string // refused writes
}

func (o *l01out) Write(p []byte) (int, error) {
	if o.failP > 0 && simrt.Chance("lfail", float64(o.failP)/100) {
		simrt.Count("log-output-error")
		o.lost = append(o.lost, string(p))
		return 0, errors.New("output refused")
	}
	pieces := 1 + int(o.slow)
	for i := 0; i < pieces; i++ {
		a, b := i*len(p)/pieces, (i+1)*len(p)/pieces
		o.buf = append(o.buf, p[a:b]...)
		simrt.Y(0)
		if o.slow > 0 && simrt.Chance("lslow", 0.3) {
			simrt.Count("log-output-slow")
			time.Sleep(time.Millisecond)
		}
	}
	return len(p), nil
}

type l01call struct {
	id         int
	client     int
	kind       string
	call, ret  int64
	want       bool // must appear
	tag        string
	toks       []string
	err        string
	outs, pres map[string]bool
	seen       int
}

type errPct struct{ s string }

func (e errPct) Error() string { return e.s }

func l01Gen(r *simrt.Rng) *core.Prog {
	p := &core.Prog{Cfg: map[string]int64{
		"debug": int64(r.N(4)), "pins": int64(r.U64() & 15), "flags": int64(r.N(3)), "prefix": int64(r.N(3)),
		"fail": pick(r, int64(0), 0, 30), "slow": int64(r.N(4)), "allpins": int64(r.N(3))}}
	n := 1 + r.N(4)
	for c := 0; c < n; c++ {
		for k := 1 + r.N(6); k > 0; k-- {
			kind := pick(r, "Print", "Println", "Printf", "Debug", "Debugln", "Debugf", "Debug", "Debugln", "Debugf", "Error", "Errorln", "Errorf")
			switch r.N(24) {
			case 0:
				kind = "SetPrefix"
			case 1:
				kind = "SetOutput"
			case 2:
				kind = pick(r, "Panic", "Panicln", "Panicf")
			case 3:
				kind = pick(r, "Fatal", "Fatalln", "Fatalf")
				if r.N(3) > 0 {
					kind = "Print"
				}
			}
			p.Ops = append(p.Ops, core.Op{C: c, K: kind, A: []int64{int64(r.U64() & 31), int64(r.N(4)), int64(r.N(3))}})
		}
	}
	return p
}

func l01Body(p *core.Prog) {
	outs := []*l01out{{name: "A"}, {name: "B"}}
	for _, o := range outs {
		o.failP, o.slow = p.Cfg["fail"], p.Cfg["slow"]
	}
	pr := newProc("logger")
	prefixes := []string{"", "[p1] ", "[second prefix] "}
	conf := log.NewConfig()
	conf.Prefix = prefixes[p.Cfg["prefix"]%3]
	conf.Debug = p.Cfg["debug"] > 0
	conf.Pins = log.Pin(p.Cfg["pins"])
	if p.Cfg["allpins"] == 0 {
		conf.Pins = log.All
	}
	conf.Output = outs[0]
	eff := conf.Pins
	if !conf.Debug {
		eff = 0
	}
	var calls []*l01call
	type change struct {
		call, ret int64
		what      string
		to        string
	}
	changes := []*change{{-2, -1, "out", "A"}, {-2, -1, "pre", conf.Prefix}}
	core.OnPanic(func(pn simrt.Panic) *core.Violation {
		if strings.HasPrefix(pn.Msg, "process exit(") {
			return nil // Fatal was asked for
		}
		return core.PanicViolation(pn)
	})
	var l log.Logger
	if !pr.Do("new", func() {
		l = log.NewLogger(conf)
		switch p.Cfg["flags"] {
		case 0:
			l.SetFlags(0)
		case 1:
		}
		if l.Pins() != eff {
			fail("pins", "Pins() is %b, configured %b (debug %v)", l.Pins(), eff, conf.Debug)
		}
	}) {
		return
	}
	pr.Par(p.Clients(), func(ci int) {
		for _, o := range p.Of(ci) {
			c := &l01call{id: len(calls), client: ci, kind: o.K, call: simrt.Seq(), ret: -1}
			pin := log.Pin(o.Arg(0))
			nargs := int(o.Arg(1))
			var args []interface{}
			var format []string
			for i := 0; i < nargs; i++ {
				t := fmt.Sprintf("<%d.%d.%d>", ci, c.id, i)
				c.toks = append(c.toks, t)
				args = append(args, t)
				format = append(format, "%v")
			}
			orig := append([]interface{}{}, args...)
			f := strings.Join(format, " and ") + fmt.Sprintf(" call%d", c.id)
			err := error(errors.New("boom"))
			switch o.Arg(2) {
			case 1:
				err = errPct{"100% of %d gone"}
			case 2:
				err = io.EOF
			}
			c.want = true
			switch o.K {
			case "SetPrefix":
				ch := &change{simrt.Seq(), -1, "pre", prefixes[o.Arg(0)%3]}
				changes = append(changes, ch)
				l.SetPrefix(ch.to)
				ch.ret = simrt.Seq()
				continue
			case "SetOutput":
				x := outs[o.Arg(0)%2]
				ch := &change{simrt.Seq(), -1, "out", x.name}
				changes = append(changes, ch)
				l.SetOutput(x)
				ch.ret = simrt.Seq()
				continue
			}
			calls = append(calls, c)
			switch {
			case strings.HasPrefix(o.K, "Debug"):
				c.tag = "[DBG]"
				c.want = pin&eff != 0
			case strings.HasPrefix(o.K, "Error"):
				c.tag = "[ERR]"
				c.err = "err=" + err.Error()
			}
			if strings.HasSuffix(o.K, "f") {
				c.toks = append(c.toks, fmt.Sprintf("call%d", c.id))
			} else if nargs == 0 {
				t := fmt.Sprintf("<%d.%d.only>", ci, c.id)
				c.toks = append(c.toks, t)
				args = append(args, t)
				orig = append(orig, t)
			}
			paniced := ""
			func() {
				defer func() {
					if strings.HasPrefix(o.K, "Panic") {
						paniced = fmt.Sprint(recover())
					}
				}()
				switch o.K {
				case "Print":
					l.Print(args...)
				case "Println":
					l.Println(args...)
				case "Printf":
					l.Printf(f, args...)
				case "Debug":
					l.Debug(pin, args...)
				case "Debugln":
					l.Debugln(pin, args...)
				case "Debugf":
					l.Debugf(pin, f, args...)
				case "Error":
					l.Error(err, args...)
				case "Errorln":
					l.Errorln(err, args...)
				case "Errorf":
					l.Errorf(err, f, args...)
				case "Panic":
					l.Panic(args...)
				case "Panicln":
					l.Panicln(args...)
				case "Panicf":
					l.Panicf(f, args...)
				case "Fatal":
					l.Fatal(args...)
				case "Fatalln":
					l.Fatalln(args...)
				case "Fatalf":
					l.Fatalf(f, args...)
				}
			}()
			c.ret = simrt.Seq()
			if strings.HasPrefix(o.K, "Panic") && !strings.Contains(paniced, c.toks[0]) {
				fail("panic-value", "%s panicked with %q", o.K, paniced)
			}
			if strings.HasPrefix(o.K, "Fatal") {
				fail("fatal-returned", "%s returned", o.K)
			}
			for i := range orig {
				if args[i] != orig[i] {
					fail("args-changed", "%s changed the caller's argument slice", o.K)
				}
			}
		}
	})
	// a process that ended in Fatal leaves the calls in flight undecided
	exited := pr.D.Exited
	possible := func(c *l01call, what string) map[string]bool {
		m := map[string]bool{}
		ret := c.ret
		if ret < 0 {
			ret = 1 << 60
		}
		for i, ch := range changes {
			if ch.what != what || ch.call > ret {
				continue
			}
			// superseded before the call started by a change that both began after this one ended and ended before
			dead := false
			for j, d := range changes {
				if j != i && d.what == what && ch.ret >= 0 && d.call > ch.ret && d.ret >= 0 && d.ret < c.call {
					dead = true
				}
			}
			if !dead {
				m[ch.to] = true
			}
		}
		return m
	}
	find := func(line string) *l01call {
		for _, c := range calls {
			if len(c.toks) > 0 && strings.Contains(line, c.toks[len(c.toks)-1]) {
				if strings.HasPrefix(c.toks[len(c.toks)-1], "call") && !strings.HasSuffix(strings.TrimRight(line, "\n"), c.toks[len(c.toks)-1]) {
					continue
				}
				return c
			}
		}
		return nil
	}
	check := func(o *l01out, line string, lost bool) {
		c := find(line)
		if c == nil {
			if exited && !lost {
				// the last write may have been cut by the exit
				return
			}
			fail("stray-line", "output %s got a line of no call: %q", o.name, line)
			return
		}
		c.seen++
		if !c.want {
			fail("debug-leak", "line %q although the pins %b do not meet %b (debug %v)", line, c.id, eff, conf.Debug)
		}
		if c.seen > 1 {
			fail("duplicate-line", "call %d (%s) wrote twice: %q", c.id, c.kind, line)
		}
		if !possible(c, "out")[o.name] {
			fail("wrong-output", "call %d went to output %s", c.id, o.name)
		}
		ok := false
		rest := line
		for pre := range possible(c, "pre") {
			if strings.HasPrefix(line, pre) && len(pre) >= len(line)-len(rest) {
				ok = true
				rest = line[len(pre):]
			}
		}
		if !ok {
			fail("prefix", "call %d: line %q has none of the possible prefixes", c.id, line)
			return
		}
		if p.Cfg["flags"] != 0 {
			// time and file:line:
			i := strings.Index(rest, ".go:")
			j := -1
			if i >= 0 {
				j = strings.Index(rest[i:], ": ")
			}
			if i < 0 || j < 0 {
				fail("header", "call %d: no source position in %q", c.id, line)
				return
			}
			rest = rest[i+j+2:]
		}
		if c.tag != "" && !strings.HasPrefix(rest, c.tag) {
			fail("tag", "call %d (%s): line %q does not start with %s", c.id, c.kind, line, c.tag)
		}
		rest = strings.TrimPrefix(rest, c.tag)
		seq := c.toks
		if c.err != "" {
			seq = append([]string{c.err}, seq...)
		}
		at := 0
		for _, tk := range seq {
			i := strings.Index(rest[at:], tk)
			if i < 0 {
				fail("args", "call %d (%s): %q is missing or out of order in %q", c.id, c.kind, tk, line)
				return
			}
			at += i + len(tk)
		}
		left := rest
		for _, tk := range seq {
			left = strings.Replace(left, tk, "", 1)
		}
		left = strings.ReplaceAll(strings.TrimSuffix(left, "\n"), " and ", "")
		if strings.Trim(left, " ") != "" {
			fail("garbage", "call %d (%s): extra text %q in line %q", c.id, c.kind, left, line)
		}
	}
	for _, o := range outs {
		s := string(o.buf)
		if s != "" && !strings.HasSuffix(s, "\n") && !exited {
			fail("cut-line", "output %s ends in the middle of a line: %q", o.name, s)
		}
		var order []*l01call
		for _, line := range strings.SplitAfter(s, "\n") {
			if line == "" {
				continue
			}
			check(o, line, false)
			if c := find(line); c != nil {
				order = append(order, c)
			}
		}
		for i, a := range order {
			for _, b := range order[i+1:] {
				if b.ret >= 0 && b.ret < a.call {
					fail("order", "call %d finished before call %d began but its line is later", b.id, a.id)
				}
			}
		}
		for _, line := range o.lost {
			check(o, line, true)
		}
	}
	for _, c := range calls {
		if c.want && c.seen == 0 && (c.ret >= 0 || !exited) {
			fail("lost-line", "call %d (%s) wrote nothing", c.id, c.kind)
		}
		if c.want && strings.HasPrefix(c.kind, "Fatal") && c.seen == 0 && exited && c.client == -1 {
			fail("fatal-silent", "%s wrote nothing", c.kind)
		}
	}
}

// flags: the configuration that comes from the command line.
func l01FlagsGen(r *simrt.Rng) *core.Prog {
	return &core.Prog{Cfg: map[string]int64{"debug": int64(r.N(3)), "pins": int64(r.U64() & 31), "preset": int64(r.U64() & 31), "use": int64(r.N(8)), "pin": int64(r.U64() & 31)}}
}

func l01FlagsBody(p *core.Prog) {
	pr := newProc("logger")
	out := &l01out{name: "A"}
	pr.Do("flags", func() {
		old := flag.CommandLine
		flag.CommandLine = flag.NewFlagSet("x", flag.ContinueOnError)
		defer func() { flag.CommandLine = old }()
		c := log.NewConfig()
		c.Output = out
		c.Pins = log.Pin(p.Cfg["preset"])
		c.FromFlags()
		pins, debug, prefix := c.Pins, log.Debug, log.Prefix
		var args []string
		if p.Cfg["use"]&1 != 0 {
			args = append(args, fmt.Sprintf("-debug-pins=%d", p.Cfg["pins"]))
			pins = log.Pin(p.Cfg["pins"])
		}
		if p.Cfg["use"]&2 != 0 {
			debug = p.Cfg["debug"] > 0
			args = append(args, fmt.Sprintf("-debug=%v", debug))
		}
		if p.Cfg["use"]&4 != 0 {
			prefix = "[pre] "
			args = append(args, "-log-prefix="+prefix)
		}
		if err := flag.CommandLine.Parse(args); err != nil {
			fail("flags-refused", "%v: %v", args, err)
			return
		}
		l := log.NewLogger(c)
		l.SetFlags(0)
		l.Debug(log.Pin(p.Cfg["pin"]), "text")
		want := ""
		if debug && pins&log.Pin(p.Cfg["pin"]) != 0 {
			want = prefix + "[DBG] text\n"
		}
		if string(out.buf) != want {
			fail("flags", "flags %v, preset pins %b, message with pin %b: wrote %q, expected %q", args, p.Cfg["preset"], p.Cfg["pin"], out.buf, want)
		}
		out.buf = nil
		l.Print("x")
		if string(out.buf) != prefix+"x\n" {
			fail("flags-prefix", "flags %v: wrote %q", args, out.buf)
		}
	})
}

func init() {
	core.Register(&core.Scenario{Prop: "L01", Name: "flags", Quick: 500, Thor: 2000, Gen: l01FlagsGen, Body: l01FlagsBody,
		Rule: "random flags of the command line on top of random preset values", Real: []string{"node/log"}})
	core.Register(&core.Scenario{Prop: "L01", Name: "concurrent", Quick: 60000, Thor: 2000000, Gen: l01Gen, Body: l01Body,
		Rule:   "1-4 clients log through one logger with random kinds, pins, arguments, prefix and output changes; outputs are slow or refuse writes",
		Real:   []string{"node/log"},
		Stubs:  []string{"standard log package (simlog: same API, simulated lock)"},
		Needed: []string{"log-output-error", "log-output-slow", "preempt"}})
}
