package drive

import (
	"fmt"
	"time"
)

var (
	gen     = Cfg{Arch: "amd64", Tags: "noasm"}
	genHook = Cfg{Arch: "amd64", Tags: "noasm", Hook: true}

	cgoPlain = Cfg{Arch: "amd64", Tags: "noasm,zzcgo", Cgo: true}
	cgoState = Cfg{Arch: "amd64", Tags: "noasm,zzcgo,zzcgostate", Cgo: true}
	cgoHook  = Cfg{Arch: "amd64", Tags: "noasm,zzcgo,zzcgostate,zzcgohook", Cgo: true}
)

// Plan is what a check runs.
type Plan struct {
	Jobs   []Job
	Bounds []string
	Extra  []func(e *Env, r *Report)
}

func (p *Plan) add(j ...Job)      { p.Jobs = append(p.Jobs, j...) }
func (p *Plan) bound(s ...string) { p.Bounds = append(p.Bounds, s...) }

type ps = map[string]int

// wr: hWrites from nx pending bytes (-1: a new hash); fin: also the digest.
func wr(cfg Cfg, fin bool, nx int, count []string, lens ...int) Job {
	l := [4]int{0, 0, 0, 0}
	copy(l[:], lens)
	tot := l[0] + l[1] + l[2] + l[3]
	f := 0
	if fin {
		f = 1
	}
	return Job{Harness: "hWrites", Params: ps{"nx": nx, "a": l[0], "b": l[1], "c": l[2], "e": l[3], "fin": f}, Cfg: cfg, CPU: "off", Count: count,
		Seeds: func(uint64) []map[string]uint64 { return stream(nx, tot) }}
}

func stream(nx, tot int) []map[string]uint64 {
	if nx < 0 {
		return messageSeeds(tot)
	}
	return streamSeeds("", nx, tot)
}

func oneShot(cfg Cfg, n int, count []string) Job {
	return Job{Harness: "hOneShot", Params: ps{"len": n}, Cfg: cfg, CPU: "off", Count: count,
		Seeds: func(uint64) []map[string]uint64 { return messageSeeds(n) }}
}

func blk(cfg Cfg, cpu string, count ...string) Job {
	return Job{Harness: "hBlock", Params: ps{"blocks": 1}, Cfg: cfg, CPU: cpu, Count: count, Budget: 300 * time.Second,
		Seeds: func(uint64) []map[string]uint64 { return attackSeeds() }}
}

func hook(cfg Cfg, cpu string, count ...string) Job {
	cfg.Hook = true
	return Job{Harness: "hHook", Cfg: cfg, CPU: cpu, Count: count, Budget: 300 * time.Second,
		Seeds: func(s uint64) []map[string]uint64 { return again(append(attackSeeds(), siblingSeeds(s)...)) }}
}

// cgoStream: a message through the cgo package's hash.
func cgoStream(cfg Cfg, count []string, p ps) Job {
	tot := p["a"] + p["b"] + p["c"] + p["e"]
	return Job{Harness: "hCgoStream", Params: p, Cfg: cfg, CPU: "off", Count: count,
		Seeds: func(uint64) []map[string]uint64 { return messageSeeds(tot) }}
}

// cgoOps: writes to the C library from an arbitrary running state.
func cgoOps(cfg Cfg, p ps) Job {
	return Job{Harness: "hCgoOps", Params: p, Cfg: cfg, CPU: "off",
		Seeds: func(uint64) []map[string]uint64 { return cgoSeeds(p["nx"], p["a"], p["b"], p["c"]) }}
}

// op: a harness of h_ops.go. nx and a tell where the seeds go.
func op(cfg Cfg, name string, count string, p ps) Job {
	tot := max(p["a"], 0)
	return Job{Harness: name, Params: p, Cfg: cfg, CPU: "off", Count: list(count),
		Seeds: func(uint64) []map[string]uint64 { return stream(p["nx"], tot) }}
}

// others: a message while or after another hash was given a colliding one.
func (p *Plan) others(count string) {
	q := ps{"a": 70, "b": 320, "nx": 3}
	o := func(j Job) Job {
		j.Seeds = func(uint64) []map[string]uint64 { return otherSeeds(q["b"]) }
		return j
	}
	p.add(o(op(gen, "hIsolated", count, q)), o(cgoRel("hCgoIsolated", count, q)))
	p.accel(func(c Cfg) Job { return o(op(c, "hIsolated", count, q)) })
}

// accelerated: the configurations with assembly, on a CPU that has the
// instructions.
var accelerated = []Cfg{{Arch: "amd64"}, {Arch: "arm64"}}

func (p *Plan) accel(f func(c Cfg) Job) {
	for _, c := range accelerated {
		j := f(c)
		j.CPU = "on"
		p.add(j)
	}
}

// long: single writes of many lengths up to past 4 GiB, whole blocks taken as
// an arbitrary function; one of 64 KiB through the real block code.
func (p *Plan) long(r func() uint64, count []string, ks ...int) {
	for _, k := range ks {
		for _, d := range []int{-1, 0, 1, 64, int(r()%64) + 2, -int(r()%64) - 2} {
			for _, c := range []Cfg{gen, {Arch: "amd64"}, {Arch: "386"}} {
				nx := pick(r, -1, 0, int(r()%64), int(r()%64))
				l := 1<<k + d
				if c.Arch == "386" && k > 30 {
					continue
				}
				cpu := "off"
				if c.Arch == "amd64" && c.Tags == "" { // block is taken as any function: replay where it is fast
					cpu = "on"
				}
				p.add(Job{Harness: "hLong", Abs: 3, Cfg: c, CPU: cpu, Count: count, Budget: 60 * time.Second,
					Params: ps{"nx": nx, "len": l >> 20, "add": l & (1<<20 - 1), "a": pick(r, 0, 1, 64-max(nx, 0), int(r()%200)), "b": pick(r, 0, 64, 640, int(r()%5000)), "c": pick(r, 0, 1, 1024), "e": pick(r, 0, 2048)}})
			}
		}
	}
}

// feed: long writes to the cgo package, up to the call of the C library.
func (p *Plan) feed(count []string) {
	for _, l := range []int{1 << 12, 1<<16 + 1, 1<<20 + 64, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 65, 1<<33 + 1} {
		p.add(Job{Harness: "hCgoFeed", Abs: 4, Cfg: cgoState, CPU: "off", Count: count, Params: ps{"len": l >> 20, "add": l & (1<<20 - 1)}})
	}
}

// cgoLong: long writes through the real C code, detection taken as finding
// nothing, around the widths that a length could be cut to.
func (p *Plan) cgoLong(count string, r func() uint64) {
	nx := 33 + int(r()%31)
	for _, a := range []ps{{"nx": 0, "add": 65610, "b": 4096}, {"nx": 3, "add": 8200, "a": 9, "b": 4096}, {"nx": nx, "add": 1<<16 + int(r()%uint64(64-nx)), "a": 9, "b": 4096}, {"nx": 64 - nx, "add": 1<<8 + int(r()%uint64(nx)), "a": 9}, {"nx": 40, "add": 1<<15 + 10, "a": 9, "b": 4096}} {
		j := cgoRel("hCgoLong", count, a)
		j.Abs = 2
		p.add(j)
	}
}

func longReal(c Cfg, cpu string, count []string, add int) Job {
	return Job{Harness: "hLong", Abs: 2, Cfg: c, CPU: cpu, Count: count, Budget: 200 * time.Second, Params: ps{"nx": 0, "add": add, "b": 4096}}
}

// cgoBlk, cgoHk: one block through the C library.
func cgoBlk(fl string, count ...string) Job {
	c := cgoState
	c.CFlags = fl
	return Job{Harness: "hCgoBlock", Params: ps{"blocks": 1}, Cfg: c, CPU: "off", Count: count, Budget: 400 * time.Second, Seeds: func(uint64) []map[string]uint64 { return attackSeeds() }}
}

func cgoHk(fl string, count ...string) Job {
	c := cgoHook
	c.CFlags = fl
	return Job{Harness: "hCgoHook", Cfg: c, CPU: "off", Count: count, Budget: 400 * time.Second, Seeds: func(s uint64) []map[string]uint64 { return again(append(attackSeeds(), siblingSeeds(s)...)) }}
}

// cgoRel: a relational harness on the cgo package's hash.
func cgoRel(name string, count string, p ps) Job {
	return Job{Harness: name, Params: p, Cfg: cgoState, CPU: "off", Count: list(count)}
}

func list(s string) []string {
	if s == "" {
		return nil
	}
	return []string{s}
}

// mix are pseudo-random small numbers for choosing parameter combinations.
func pick(r func() uint64, xs ...int) int { return xs[r()%uint64(len(xs))] }

// PlanFor builds the job list of a property.
func PlanFor(prop string, thorough bool, seed uint64) *Plan {
	p := &Plan{}
	r := rng(seed*1000003 + uint64(prop[1])*17 + uint64(prop[2]))
	th := func(q, t int) int {
		if thorough {
			return t
		}
		return q
	}
	count := []string{prop + "."}
	switch prop {
	case "C01":
		p.add(blk(gen, "off", "C01."))
		for _, n := range []int{0, 1, 55, 56, 63, 64, 119, 120, 130} {
			p.add(oneShot(gen, n, []string{"C15.", "C09."}))
		}
		p.accel(func(c Cfg) Job { return blk(c, "on", "C01.") })
		p.add(cgoBlk("", "C01."))
		for _, n := range []int{0, 3, 55, 56, 64, 119, 120, 200} {
			p.accel(func(c Cfg) Job { return oneShot(c, n, []string{"C15.", "C09."}) })
			p.add(cgoStream(cgoPlain, nil, ps{"self": 1, "a": n / 3, "b": n - n/3}))
		}
		for _, nx := range []int{0, 1, 54, 55, 56, 63} {
			p.add(cgoOps(cgoState, ps{"nx": nx, "a": pick(r, 0, 1, 64, 70), "at": 2}))
			p.add(wr(gen, true, nx, []string{"C09.", "C15."}, pick(r, 0, 64, 70)))
		}
		p.bound("one block: any chaining value, any block content, compared with an independent transcription of FIPS 180-4", "one-shot messages of the listed lengths, any content", "the same for the accelerated paths (machine code, amd64 and arm64) and the C library, with finalisation from any running state at the buffered amounts around the padding boundary")
	case "C02":
		p.add(blk(gen, "off", "C02."), hook(gen, "off", "C02."))
		p.accel(func(c Cfg) Job { return blk(c, "on", "C02.") })
		p.accel(func(c Cfg) Job { return hook(c, "on", "C02.") })
		p.add(cgoBlk("", "C02."), cgoHk("", "C02."))
		p.bound("one block: any chaining value, any block content, all 32 vectors", "hooked: any value in place of the output the siblings are compared with", "portable code, accelerated paths (machine code, amd64 and arm64) and the C library")
	case "C03":
		p.add(blk(gen, "off", "C03."))
		for _, nx := range []int{0, 1, 37, 63} {
			for _, a := range []int{64, 128, 192, 256} {
				p.add(wr(gen, true, nx, []string{"C09.", "C15."}, a))
			}
		}
		for _, a := range []int{320, 330, 640, 650} {
			p.add(oneShot(gen, a, []string{"C09.", "C15."}))
		}
		p.add(hook(gen, "off", "C03."))
		p.accel(func(c Cfg) Job { return blk(c, "on", "C03.") })
		p.accel(func(c Cfg) Job { return hook(c, "on", "C03.") })
		p.add(cgoBlk("", "C03."), cgoHk("", "C03."))
		for _, nx := range []int{0, 37} {
			for _, a := range []int{128, 256} {
				p.accel(func(c Cfg) Job { return wr(c, true, nx, []string{"C09.", "C15."}, a) })
				p.add(cgoRel("hCgoSplit", "C09.", ps{"nx": nx, "a": 64 - nx, "b": 64, "c": a - 64}))
			}
		}
		p.accel(func(c Cfg) Job { return oneShot(c, 640, []string{"C09.", "C15."}) })
		p.bound("one block: any chaining value and content", "sequences of up to 5 blocks per write (10 for the one-shot function) against one block at a time", "portable code, accelerated paths (machine code, amd64 and arm64) and the C library")
	case "C04":
		p.add(Job{Harness: "hMask", Cfg: gen, CPU: "off", Count: count, Budget: 300 * time.Second,
			Seeds: func(s uint64) []map[string]uint64 { return maskSeeds(s) }})
		p.add(Job{Harness: "hCgoMask", Cfg: cgoPlain, CPU: "off", Budget: 300 * time.Second, Seeds: func(s uint64) []map[string]uint64 { return maskSeeds(s) }})
		p.add(Job{Harness: "hCgoMask", Cfg: Cfg{Arch: "amd64", Tags: "noasm,zzcgo"}, CPU: "off", Budget: 300 * time.Second, Seeds: func(s uint64) []map[string]uint64 { return maskSeeds(s) }})
		p.bound("all 80 words free, for the Go function, the C function (from its LLVM IR) and the cgo package's fallback")
	case "C05":
		for k := 0; k <= 32; k++ {
			p.add(Job{Harness: "hTable", Params: ps{"k": k}, Cfg: gen, CPU: "off", Count: count})
		}
		for k := 0; k <= 32; k++ {
			p.add(Job{Harness: "hCgoTable", Params: ps{"k": k}, Cfg: Cfg{Arch: "amd64", Tags: "noasm,zzcgo,zzcgotab", Cgo: true}, CPU: "off", Count: count})
		}
		p.bound("every vector and the terminator, symbolic word index 0-79, Go and C catalogue")
	case "C06", "C07":
		c, regs := Cfg{Arch: "amd64"}, 384
		if prop == "C07" {
			c, regs = Cfg{Arch: "arm64"}, 768
		}
		tr := c
		tr.Tags = "zzasm"
		for _, cpu := range []string{"on", "sym", "off"} {
			p.add(blk(c, cpu), hook(c, cpu))
		}
		for odd := 0; odd < 2; odd++ {
			b, k := blk(tr, "on"), hook(tr, "on")
			b.Params = ps{"blocks": 1, "regs": regs, "odd": odd}
			k.Params = ps{"regs": regs, "odd": odd}
			p.add(b, k)
		}
		for place := 0; place < 3; place++ {
			p.add(Job{Harness: "hAsm", Params: ps{"n": 64, "place": place, "regs": regs}, Cfg: tr, CPU: "on"})
		}
		on := func(j Job) { j.CPU = "on"; p.add(j) }
		for i := 0; i < th(24, 200); i++ {
			nx := pick(r, -1, 0, int(r()%64), int(r()%64))
			l := func() int { return pick(r, 0, 1, int(r()%64), 64, 64+int(r()%70)) }
			on(wr(c, true, nx, nil, l(), l(), l()))
		}
		for _, n := range []int{64, 128, 320, 330, 640, 1030} {
			on(wr(c, true, 0, nil, n))
			on(oneShot(c, n, nil))
			on(op(c, "hBuffers", "", ps{"nx": pick(r, 0, 5, 63), "a": min(n, 330)}))
		}
		for i := 0; i < th(8, 60); i++ {
			nx := int(r() % 64)
			on(op(c, "hHistory", "", ps{"nx": nx, "a": pick(r, 64-nx, 70, 128-nx), "b": pick(r, 0, 1, 64, 70)}))
			on(op(c, "hTotal", "", ps{"nx": nx, "a": pick(r, 64-nx, 64, 130)}))
			on(op(c, "hIsolated", "", ps{"a": int(r() % 140), "b": int(r() % 140), "nx": nx}))
		}
		p.bound("the machine code that the Go assembler and linker made from the current assembly source, instruction by instruction",
			"one block: any chaining value, any content, all 32 vectors; hooked: any value in place of the output the siblings are compared with; each with acceleration on, off, and every combination of the CPU features that are tested or needed",
			"any contents of all registers that the calling convention leaves free, of the stack below the call and of the scratch outputs; both 8-byte stack alignments; unaligned buffers; every access checked against the exact extent of its slice",
			"through the public interface: any state, up to three writes of up to 133 bytes, single writes of up to 1030 bytes (against one block at a time), buffers, isolation and verdict history")
	case "C08":
		for _, fl := range []string{"", "-DSHA1DC_FORCE_ALIGNED_ACCESS"} {
			st := cgoState
			st.CFlags = fl
			p.add(cgoBlk(fl), cgoHk(fl))
			for nx := 0; nx < 64; nx++ {
				if fl != "" && nx%8 != 5 {
					continue
				}
				p.add(cgoOps(st, ps{"nx": nx, "a": pick(r, 0, 1, 63-nx, 64-nx, 65-nx, 64), "b": pick(r, 0, 1, 60, int(r()%64), 64, 70), "c": pick(r, 0, 0, 1, 64), "at": int(r() % 3), "q": pick(r, 0, 3, 64, 55, 56)}))
			}
			for i := 0; i < th(6, 100); i++ {
				p.add(cgoOps(st, ps{"nx": int(r() % 64), "a": int(r() % 140), "b": int(r() % 140), "c": int(r() % 70), "at": int(r() % 3), "q": int(r() % 130)}))
			}
			p.add(cgoOps(st, ps{"nx": 0, "a": 256, "b": 0, "c": 130, "at": 1, "q": 0}), cgoOps(st, ps{"nx": 9, "a": 330, "b": 1, "c": 0, "at": 0, "q": 200}))
		}
		for i := 0; i < th(12, 100); i++ {
			l := func() int { return pick(r, 0, 1, int(r()%64), 64, 64+int(r()%70)) }
			p.add(cgoStream(cgoPlain, nil, ps{"self": 1, "a": l(), "b": l(), "c": l(), "e": l(), "at": int(r() % 4), "pre": pick(r, 0, 3), "dirty": pick(r, 0, 5, 70), "dsum": int(r() % 2)}))
		}
		p.add(cgoStream(cgoPlain, nil, ps{"a": 0}))
		p.cgoLong("C08.", r)
		p.feed(count)
		p.bound("Go side of the cgo package: writes of up to 8 GiB hand all bytes to the C library in order")
		p.bound("C side from the LLVM IR of the current C files and cgo preambles (amd64; unaligned-access and aligned-access variants)",
			"one block: any chaining value, any content, all 32 vectors; hooked: any value in place of the output the siblings are compared with",
			"any running state (chaining value, 0-63 pending bytes, stale buffer, any 64-bit total, verdict), up to three writes of up to 330 bytes with sums in between, Reset and a further message, one-shot calls, all against whole-block processing of the padded stream",
			"outside: other C targets, compiler bugs, undefined behaviour that clang and gcc resolve differently")
	case "C19":
		cfgs := []Cfg{{Arch: "386"}, {Arch: "arm"}, {Arch: "arm64", Tags: "noasm"}, {Arch: "amd64", Tags: "noasm"}, {Arch: "amd64"}, {Arch: "arm64"}, {Arch: "s390x"}, {Arch: "mips"}}
		for _, c := range cfgs {
			b := blk(c, "off")
			p.add(b)
			hk := hook(c, "off")
			p.add(hk)
			m := Job{Harness: "hMask", Cfg: c, CPU: "off", Seeds: func(s uint64) []map[string]uint64 { return maskSeeds(s) }}
			p.add(m)
			for i := 0; i < th(4, 30); i++ {
				nx := pick(r, -1, 0, int(r()%64), int(r()%64))
				l := func() int { return pick(r, 0, 1, int(r()%64), 64, 64+int(r()%70)) }
				p.add(wr(c, true, nx, nil, l(), l(), l()))
				p.add(op(c, "hSave", "", ps{"nx": nx, "a": l(), "onx": pick(r, -1, 0, 31, 63), "oa": pick(r, 0, 5, 64), "t": pick(r, 0, 1, 64)}))
				p.add(op(c, "hReset", "", ps{"nx": nx, "a": l(), "sum": i % 2, "b": pick(r, 0, 5, 64), "c": 3}))
				p.add(op(c, "hForeign", "", ps{"nx": max(nx, 0), "a": l()}))
				p.add(oneShot(c, pick(r, 0, 55, 56, 64, 130, int(r()%200)), nil))
			}
			p.add(op(c, "hRestore", "", ps{"len": 98, "nx": 3, "magic": 0, "r": int(r() % 64)}), op(c, "hRestore", "", ps{"len": 97, "nx": 3, "magic": 1}))
			p.add(wr(c, true, 0, nil, 1030))
		}
		fall := []Cfg{{Arch: "amd64", Tags: "noasm,zzcgo"}, {Arch: "386", Tags: "zzcgo"}}
		for _, c := range fall {
			p.add(Job{Harness: "hCgoMask", Cfg: c, CPU: "off", Budget: 300 * time.Second, Seeds: func(s uint64) []map[string]uint64 { return maskSeeds(s) }})
			p.add(cgoStream(c, nil, ps{"a": 0}), cgoStream(c, nil, ps{"a": 64, "b": 1}), cgoStream(c, nil, ps{"a": 3, "b": 0, "c": 60, "e": 70, "at": 2, "pre": 3, "dirty": 70}), cgoStream(c, nil, ps{"a": 640}))
		}
		p.bound("configurations: linux/386, arm, mips and s390x (32-bit and big-endian), amd64 and arm64 with the noasm tag and with assembly but no CPU support, and the cgo package with cgo disabled (64- and 32-bit)", "per configuration: any block and chaining value; any state with up to three writes, save/restore, reset, foreign states, one-shot messages, all against the same specification and byte-identical saved form")
	case "C20":
		p.add(Job{Harness: "hPairMask", Cfg: gen, CPU: "off", Count: count, Budget: 300 * time.Second,
			Seeds: func(s uint64) []map[string]uint64 { return maskSeeds(s) }})
		for k := 0; k < 32; k++ {
			p.add(Job{Harness: "hPair", Params: ps{"k": k}, Cfg: genHook, CPU: "off", Count: count, Budget: 200 * time.Second,
				Seeds: func(s uint64) []map[string]uint64 { return pairSeeds(s, k) }})
		}
		p.bound("conditions: all 80 words free, all 32 vectors", "pairs: any chaining value, any block, all 32 vectors, both members through the real block function with the compared output replaced by the partner's")
	case "C09":
		p.add(longReal(gen, "off", count, 65610))
		p.accel(func(c Cfg) Job { return longReal(c, "on", count, 65610) })
		p.cgoLong("C09.", r)
		p.feed(count)
		for k := 2; k <= 40; k++ { // every number of blocks
			for _, d := range []int{0, int(r()%63) + 1} {
				p.add(Job{Harness: "hLong", Abs: 3, Cfg: gen, CPU: "off", Count: count, Budget: 60 * time.Second,
					Params: ps{"nx": pick(r, -1, 0, 0, int(r()%64)), "add": 64*k + d, "a": pick(r, 0, 1, 64, int(r()%(64*uint64(k)))), "b": pick(r, 0, 64, int(r()%300))}})
			}
		}
		p.long(r, count, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24, 30, 31, 32, 33)
		for nx := 0; nx < 64; nx++ {
			for _, a := range []int{0, 1, 63 - nx, 64 - nx, 65 - nx, 64, 128 - nx, 130, 193} {
				p.add(wr(gen, false, nx, count, a))
			}
		}
		for i := 0; i < th(60, 600); i++ {
			nx := pick(r, -1, 0, int(r()%64), int(r()%64))
			l := func() int { return pick(r, 0, 1, int(r()%64), int(r()%64), 64, 64+int(r()%70)) }
			p.add(wr(gen, i%4 == 0, nx, count, l(), l(), l(), l()))
		}
		for _, n := range []int{0, 1, 63, 64, 65, 127, 128, 129, 200, 320, 330, 640, 650} {
			p.add(oneShot(gen, n, count), wr(gen, true, -1, count, n), wr(gen, true, -1, count, n/2, n-n/2))
		}
		p.add(wr(gen, false, 0, count, 1030), wr(gen, false, 5, count, 1030), wr(gen, false, 0, count, 2048))
		if thorough {
			for nx := 0; nx < 64; nx++ {
				for a := 0; a <= 200; a++ {
					p.add(wr(gen, false, nx, count, a))
				}
			}
			p.add(wr(gen, false, 3, count, 4200), oneShot(gen, 4200, count))
		}
		for _, nx := range []int{-1, 0, 1, 17, 40, 62, 63} {
			for i := 0; i < th(3, 12); i++ {
				l := func() int { return pick(r, 0, 1, 63-max(nx, 0), 64-max(nx, 0), int(r()%64), 64, 64+int(r()%70)) }
				p.accel(func(c Cfg) Job { return wr(c, true, nx, count, l(), l(), l()) })
				p.add(cgoRel("hCgoSplit", "C09.", ps{"nx": nx, "a": l(), "b": l(), "c": l()}))
			}
		}
		for nx := 0; nx < 64; nx += 3 {
			p.add(cgoRel("hCgoSplit", "C09.", ps{"nx": nx, "a": pick(r, 0, 63-nx, 64-nx, 65-nx), "b": pick(r, 1, 64, 65, 130)}))
		}
		p.add(cgoRel("hCgoSplit", "C09.", ps{"nx": 5, "a": 1, "b": 330, "c": 700}), cgoStream(cgoPlain, nil, ps{"self": 1, "a": 1030}))
		for _, n := range []int{64, 330, 640} {
			p.accel(func(c Cfg) Job { return oneShot(c, n, count) })
		}
		p.bound("single writes of lengths around powers of two from 1 KiB to 8 GiB, against the same bytes in up to five pieces (whole blocks taken as an arbitrary function of chaining value and bytes; 386 up to 1 GiB)", "one write of 65610 bytes through the real block code of every backend (detection taken as finding nothing)")
		p.bound("states: any chaining value, any pending bytes, any block count, verdict either way; every buffered amount 0-63 and a new hash", fmt.Sprintf("single writes: 0, 1, up to/at/past the block boundary, 64, 130, 193 bytes for every buffered amount%s; up to four writes in a row for %d combinations", map[bool]string{true: " (thorough: every length 0-200)", false: ""}[thorough], th(60, 600)), "one-shot and streaming of whole messages up to 650 bytes, long writes up to 2048 bytes (thorough 4200)", "the accelerated paths (machine code) and the cgo package (LLVM IR of the C side) at sampled buffered amounts, pieces of up to 133 bytes")
	case "C10":
		for nx := 0; nx < 64; nx++ {
			p.add(op(gen, "hSum", prop+".", ps{"nx": nx, "pre": pick(r, 0, 0, 3, 20), "spare": pick(r, 0, 19, 20, 40), "t": pick(r, 0, 1, 64-nx, 70)}))
		}
		for _, pre := range []int{0, 1, 20, 33} {
			for _, spare := range []int{0, 1, 19, 20, 21, 64} {
				p.add(op(gen, "hSum", prop+".", ps{"nx": pick(r, -1, 0, 3, 55, 56, 63), "pre": pre, "spare": spare, "t": pick(r, 0, 5, 64)}))
			}
		}
		for _, nx := range []int{-1, 0, 1, 8, 54, 55, 56, 57, 63} {
			p.add(cgoRel("hCgoSum", "C10.", ps{"nx": nx, "a": pick(r, 0, 1, 64, 70), "pre": pick(r, 0, 3, 20), "spare": pick(r, 0, 19, 20, 40), "t": pick(r, 1, 64, 70)}))
			p.accel(func(c Cfg) Job {
				return op(c, "hSum", prop+".", ps{"nx": nx, "pre": pick(r, 0, 3), "spare": pick(r, 0, 20), "t": pick(r, 1, 64-max(nx, 0), 70)})
			})
		}
		p.bound("any state with 0-63 pending bytes, prefixes of up to 33 bytes with up to 64 bytes of spare capacity, continuations of up to 70 bytes", "also the accelerated paths and the cgo package at sampled buffered amounts")
	case "C11":
		for nx := -1; nx < 64; nx++ {
			p.add(op(gen, "hReset", prop+".", ps{"nx": nx, "b": pick(r, 0, 3)}))
			p.add(op(gen, "hReset", prop+".", ps{"nx": nx, "a": pick(r, 1, 3, 64-max(nx, 0), 100), "sum": int(r() % 2), "b": pick(r, 0, 5, 64, 70), "c": pick(r, 0, 3, 64)}))
		}
		p.add(op(gen, "hReset", prop+".", ps{"nx": 0, "a": 64, "b": 64, "c": 130}), op(gen, "hReset", prop+".", ps{"nx": 7, "a": 200, "b": 130, "c": 1}))
		for _, nx := range []int{-1, 0, 1, 9, 55, 56, 63} {
			p.add(cgoRel("hCgoReset", "C11.", ps{"nx": nx, "a": pick(r, 0, 1, 64, 70), "sum": int(r() % 2), "b": pick(r, 5, 64, 70), "c": pick(r, 3, 64, 130)}))
			p.accel(func(c Cfg) Job {
				return op(c, "hReset", prop+".", ps{"nx": nx, "a": pick(r, 1, 64, 100), "sum": int(r() % 2), "b": pick(r, 5, 64, 70), "c": 64})
			})
		}
		p.bound("any state with 0-63 pending bytes, a write of up to 200 bytes, Reset, then two more messages of up to 130 bytes", "also the accelerated paths and the cgo package at sampled buffered amounts")
	case "C12":
		for nx := -1; nx < 64; nx++ {
			p.add(op(gen, "hSave", prop+".", ps{"nx": nx, "a": pick(r, 0, 1, 64-max(nx, 0), 70), "onx": pick(r, -1, 0, 1, 31, 63), "oa": pick(r, 0, 5, 64), "t": pick(r, 0, 1, 64, 70)}))
		}
		for nx := 0; nx < 64; nx++ {
			p.add(op(gen, "hCanon", prop+".", ps{"nx": nx, "g": pick(r, 0, 63, 70, 128), "t": pick(r, 0, 1, 64)}))
		}
		p.bound("source: any state with 0-63 pending bytes and a write of up to 70 bytes; destination: any state after a write of up to 64 bytes; continuation up to 70 bytes")
	case "C13":
		for n := 0; n <= th(130, 260); n++ {
			p.add(op(gen, "hRestore", prop+".", ps{"len": n, "nx": int(r() % 64), "magic": 0, "t": 0, "r": int(r() % 64)}))
		}
		for k := 1; k <= 11; k++ {
			for _, n := range []int{6, 25, 90, 97, 98, 99, 162} {
				p.add(op(gen, "hRestore", prop+".", ps{"len": n, "nx": pick(r, -1, 0, int(r()%64)), "magic": k, "t": pick(r, 0, 1, 64), "r": int(r() % 64)}))
			}
		}
		for x := 0; x < 64; x++ {
			p.add(op(gen, "hRestore", prop+".", ps{"len": 98, "nx": int(r() % 64), "magic": 0, "t": 0, "r": x}))
			p.add(op(gen, "hForeign", prop+".", ps{"nx": x, "a": pick(r, 0, 1, 64-x, 70)}))
		}
		p.bound("byte strings of every length 0-130 (thorough 0-260), any content; accepted states: all 64 pending amounts, any content; then one write of up to 70 bytes and a digest")
	case "C14":
		for nx := 0; nx < 64; nx++ {
			p.add(op(gen, "hHistory", prop+".", ps{"nx": nx, "a": pick(r, 64-nx, 64-nx, 70, 128-nx), "b": pick(r, 0, 1, 64, 70)}))
			p.add(op(gen, "hSticky", prop+".", ps{"nx": nx, "a": pick(r, 0, 1, 64-nx, 70), "t": pick(r, 0, 64)}))
		}
		p.add(op(gen, "hHistory", prop+".", ps{"nx": 0, "a": 192, "b": 64}), op(gen, "hHistory", prop+".", ps{"nx": 0, "a": 64, "b": 192}), op(gen, "hHistory", prop+".", ps{"nx": 9, "a": 247, "b": 130}))
		for _, n := range []int{320, 384, 640, 704} {
			p.add(oneShot(gen, n, count), wr(gen, true, -1, count, n, 64), wr(gen, true, -1, count, n, 200))
		}
		for _, nx := range []int{0, 1, 20, 56, 63} {
			p.add(cgoRel("hCgoSum", "C14.", ps{"nx": nx, "a": pick(r, 1, 64, 70), "t": 64}), cgoRel("hCgoReset", "C14.", ps{"nx": nx, "a": pick(r, 0, 64)}))
			j := cgoOps(cgoState, ps{"nx": nx, "a": pick(r, 1, 64-nx, 64), "b": pick(r, 64, 128), "c": pick(r, 0, 3, 64), "at": int(r() % 3)})
			j.Count = count
			p.add(j)
			p.accel(func(c Cfg) Job {
				return op(c, "hHistory", prop+".", ps{"nx": nx, "a": pick(r, 64-nx, 70, 128-nx), "b": pick(r, 1, 64, 70)})
			})
			p.accel(func(c Cfg) Job { return op(c, "hSticky", prop+".", ps{"nx": nx, "a": pick(r, 1, 64-nx, 70), "t": 64}) })
		}
		p.accel(func(c Cfg) Job { return op(c, "hHistory", prop+".", ps{"nx": 0, "a": 192, "b": 64}) })
		p.accel(func(c Cfg) Job { return oneShot(c, 704, count) })
		p.add(hook(gen, "off", count...), cgoHk("", count...))
		p.others("C14.")
		p.accel(func(c Cfg) Job { return hook(c, "on", count...) })
		p.bound("one block after any verdict, with any value in place of the output the siblings are compared with: stays flagged")
		p.bound("any state with 0-63 pending bytes, two writes of up to 247 bytes, save/restore, sums and reset in between; whole messages of up to 704 bytes", "also the accelerated paths and the cgo package at sampled buffered amounts")
	case "C15":
		p.long(r, count, 16, 31, 32)
		for nx := 0; nx < 64; nx++ {
			p.add(wr(gen, true, nx, count, 0))
			p.add(wr(gen, true, nx, count, pick(r, 1, 64-nx, 70)))
			p.add(oneShot(gen, nx+64*pick(r, 0, 1), count))
			p.add(wr(Cfg{Arch: "386"}, true, nx, count, 0))
		}
		for _, n := range []int{0, 1, 54, 55, 56, 57, 63, 64, 65, 118, 119, 120, 121, 127, 128} {
			p.add(wr(gen, true, -1, count, n))
		}
		for nx := 0; nx < 64; nx++ {
			j := cgoOps(cgoState, ps{"nx": nx, "a": pick(r, 0, 1, 64), "at": 2})
			j.Count = count
			p.add(j)
			if nx%8 >= 6 || nx < 2 {
				p.accel(func(c Cfg) Job { return wr(c, true, nx, count, pick(r, 0, 64)) })
			}
		}
		p.bound("all 2^64 length counters, every buffered amount 0-63, any buffer content, 64- and 32-bit int", "the C library from any running state, every buffered amount")
	case "C16":
		for _, q := range []ps{{"a": 64, "b": 64, "nx": 0}, {"a": 70, "b": 5, "nx": 60}, {"a": 3, "b": 130, "nx": 5, "mask": 1}, {"a": 0, "b": 0, "nx": 63}, {"a": 130, "b": 64, "nx": 1}, {"a": 128, "b": 128, "nx": 0, "mask": 1}} {
			p.add(op(gen, "hIsolated", prop+".", q))
		}
		for i := 0; i < th(12, 100); i++ {
			p.add(op(gen, "hIsolated", prop+".", ps{"a": int(r() % 140), "b": int(r() % 140), "nx": int(r() % 64)}))
		}
		for i := 0; i < th(6, 40); i++ {
			q := ps{"a": pick(r, 64, 128, int(r()%140)), "b": pick(r, 5, 64, int(r()%140)), "nx": int(r() % 64)}
			p.accel(func(c Cfg) Job { return op(c, "hIsolated", prop+".", q) })
			p.add(cgoRel("hCgoIsolated", "C16.", q))
		}
		p.others("C16.")
		p.bound("two or three instances, one of them in any state, writes of up to 140 bytes interleaved with sums, saves, restores and resets of the others", "no write reaches memory that another instance can see, on any path: so no interleaving of two goroutines on distinct instances has a conflicting access", "portable code, accelerated paths and the cgo package")
	case "C17":
		for nx := 0; nx < 64; nx += 1 {
			p.add(op(gen, "hBuffers", prop+".", ps{"nx": nx, "a": pick(r, 0, 1, 64-nx, 70, 128-nx, 140)}))
		}
		for _, a := range []int{0, 1, 63, 64, 65, 128, 200} {
			p.add(op(gen, "hBuffers", prop+".", ps{"nx": pick(r, -1, 0), "a": a}), op(gen, "hBuffers", prop+".", ps{"nx": 63, "a": a}))
		}
		for _, nx := range []int{0, 1, 30, 63} {
			for _, a := range []int{0, 1, 64 - nx, 64, 140} {
				p.accel(func(c Cfg) Job { return op(c, "hBuffers", prop+".", ps{"nx": nx, "a": a}) })
				p.add(cgoRel("hCgoBuffers", "C17.", ps{"nx": nx, "a": a}))
			}
		}
		p.bound("any state with 0-63 pending bytes, writes of up to 200 bytes from a window of a larger slice", "also the accelerated paths and the cgo package at sampled buffered amounts")
	case "C18":
		for nx := -1; nx < 64; nx++ {
			for _, a := range []int{-1, 0, 1, 63 - max(nx, 0), 64 - max(nx, 0), 64, 130} {
				p.add(op(gen, "hTotal", prop+".", ps{"nx": nx, "a": a}))
			}
		}
		p.add(op(gen, "hTotal", prop+".", ps{"nx": 0, "a": 1030}), op(gen, "hTotal", prop+".", ps{"nx": 5, "a": 2048}))
		for _, nx := range []int{-1, 0, 1, 30, 55, 56, 63} {
			for _, a := range []int{-1, 0, 1, 64 - max(nx, 0), 64, 130} {
				p.accel(func(c Cfg) Job { return op(c, "hTotal", prop+".", ps{"nx": nx, "a": a}) })
				p.add(cgoRel("hCgoSplit", "C18.", ps{"nx": nx, "a": max(a, 0), "b": pick(r, 0, 1, 64)}))
			}
		}
		p.add(cgoRel("hCgoSplit", "C18.", ps{"nx": 3, "a": 1030, "b": 0}), cgoRel("hCgoSum", "C18.", ps{"nx": 60, "a": 70, "pre": 3, "spare": 20}))
		p.long(r, count, 12, 16, 20, 31, 32)
		p.feed(count)
		p.bound("single writes of lengths around powers of two up to 4 GiB (whole blocks taken as an arbitrary function of chaining value and bytes)")
		p.bound("any state with 0-63 pending bytes, writes of nil, 0, 1, up to/at the block boundary, 64, 130, 1030 and 2048 bytes", "also the accelerated paths and the cgo package at sampled buffered amounts")
	}
	return p
}
